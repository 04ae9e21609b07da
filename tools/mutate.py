"""Mutation campaign against the checks (development tool, not a check).

  python3 tools/mutate.py gen OUT.json            mutants that build and pass the repository's tests
  python3 tools/mutate.py run IN.json OUT.json    which check reports each of them

Scratch copies live under /tmp/mut and are removed at the end.
"""
import ast
import copy
import json
import multiprocessing as mp
import os
import re
import shutil
import subprocess
import sys

REPO = '/repo'
WORK = '/tmp/mut'
SKIP = {'version.py'}


def files():
    for d, _, fs in os.walk(os.path.join(REPO, 'sqlpuzzle')):
        for f in sorted(fs):
            if f.endswith('.py') and f not in SKIP:
                yield os.path.relpath(os.path.join(d, f), REPO)


SWAP = {ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq], ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt], ast.Gt: [ast.GtE, ast.Lt], ast.GtE: [ast.Gt],
        ast.In: [ast.NotIn], ast.NotIn: [ast.In], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is]}
NAMES = {'append_unique_part': ['append_part'], 'append_part': ['append_unique_part'], 'sorted': ['list'], 'any': ['all'], 'all': ['any'], 'deepcopy': ['copy'],
         'extend': ['append'], 'append': ['extend'], 'INNER_JOIN': ['LEFT_JOIN'], 'LEFT_JOIN': ['RIGHT_JOIN'], 'RIGHT_JOIN': ['LEFT_JOIN'], 'FULL_JOIN': ['LEFT_JOIN'],
         'SqlValue': ['SqlReference'], 'SqlReference': ['SqlValue', 'str'], 'force_text': ['str'], 'isinstance': ['issubclass'], 'ASC': ['DESC'], 'DESC': ['ASC'],
         'set': ['list'], 'zip': [], 'search': ['match'], 'lower': ['strip'], 'upper': ['lower'], 'is_same_value': []}


def mutants(src):
    tree = ast.parse(src)
    nodes = list(ast.walk(tree))
    docs = set()
    for n in nodes:
        if isinstance(n, (ast.Module, ast.ClassDef, ast.FunctionDef)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
            docs.add(id(n.body[0].value))
            docs.add(id(n.body[0]))

    def emit(desc, node, edit):
        i = nodes.index(node)
        t = copy.deepcopy(tree)
        m = list(ast.walk(t))[i]
        if edit(m, t) is False:
            return None
        ast.fix_missing_locations(t)
        try:
            s = ast.unparse(t)
            ast.parse(s)
        except Exception:
            return None
        return ('line %d: %s' % (getattr(node, 'lineno', 0), desc), s)

    def setcls(new):
        def e(m, t):
            m.__class__ = new
        return e

    def repl(builder):
        def e(m, t):
            new = builder(m)
            for p in ast.walk(t):
                for f, v in ast.iter_fields(p):
                    if v is m:
                        setattr(p, f, new)
                        return
                    if isinstance(v, list):
                        for k, x in enumerate(v):
                            if x is m:
                                v[k] = new
                                return
            return False
        return e
    for n in nodes:
        if isinstance(n, ast.Compare):
            for k, op in enumerate(n.ops):
                for o in SWAP.get(type(op), []):
                    yield emit('%s -> %s' % (ast.unparse(n), o.__name__), n, lambda m, t, k=k, o=o: m.ops.__setitem__(k, o()))
        if isinstance(n, ast.BoolOp):
            yield emit('swap and/or in %s' % ast.unparse(n), n, lambda m, t: setattr(m, 'op', ast.Or() if isinstance(m.op, ast.And) else ast.And()))
            for k in range(len(n.values)):
                yield emit('drop %s' % ast.unparse(n.values[k]), n, lambda m, t, k=k: m.values.pop(k))
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            yield emit('drop not in %s' % ast.unparse(n), n, repl(lambda m: m.operand))
        if isinstance(n, (ast.If, ast.IfExp, ast.While)):
            for v in (True, False):
                yield emit('condition %s -> %s' % (ast.unparse(n.test), v), n, lambda m, t, v=v: setattr(m, 'test', ast.Constant(v)))
        if isinstance(n, ast.comprehension) and n.ifs:
            yield emit('drop filter %s' % ast.unparse(n.ifs[0]), n, lambda m, t: m.ifs.clear())
        if isinstance(n, (ast.Module, ast.FunctionDef, ast.ClassDef, ast.If, ast.For, ast.With, ast.Try)):
            for field in ('body', 'orelse'):
                for k, s in enumerate(getattr(n, field, [])):
                    if id(s) in docs or isinstance(s, (ast.Import, ast.ImportFrom, ast.Pass, ast.Global)):
                        continue
                    if isinstance(s, ast.ClassDef):
                        continue
                    def cut(m, t, k=k, field=field):
                        b = getattr(m, field)
                        b[k:k + 1] = [] if len(b) > 1 else [ast.Pass()]
                    yield emit('delete %s' % ast.unparse(s).split('\n')[0][:100], n, cut)
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            for k, d in enumerate(n.decorator_list):
                yield emit('drop decorator %s' % ast.unparse(d), n, lambda m, t, k=k: m.decorator_list.pop(k))
        if isinstance(n, ast.Constant) and id(n) not in docs:
            v = n.value
            if isinstance(v, bool):
                yield emit('%r -> %r' % (v, not v), n, lambda m, t, v=v: setattr(m, 'value', not v))
            elif isinstance(v, int):
                yield emit('%r -> %r' % (v, v + 1), n, lambda m, t, v=v: setattr(m, 'value', v + 1))
                if v > 0:
                    yield emit('%r -> %r' % (v, v - 1), n, lambda m, t, v=v: setattr(m, 'value', v - 1))
            elif isinstance(v, str):
                alts = [v + 'X', ''] if v else ['X']
                if v.lower() != v.upper():
                    alts.append(v.lower() if v.lower() != v else v.upper())
                if v.strip() != v:
                    alts.append(v.strip())
                for a in alts:
                    yield emit('%r -> %r' % (v, a), n, lambda m, t, a=a: setattr(m, 'value', a))
            elif v is None:
                yield emit('None -> 0', n, lambda m, t: setattr(m, 'value', 0))
        if isinstance(n, (ast.Tuple, ast.List, ast.Set)) and isinstance(getattr(n, 'ctx', ast.Load()), ast.Load) and len(n.elts) > 1:
            for k in range(len(n.elts)):
                yield emit('drop %s from display' % ast.unparse(n.elts[k]), n, lambda m, t, k=k: m.elts.pop(k))
            for k in range(len(n.elts) - 1):
                yield emit('swap in display %s' % ast.unparse(n)[:80], n, lambda m, t, k=k: m.elts.__setitem__(slice(k, k + 2), m.elts[k:k + 2][::-1]))
        if isinstance(n, ast.Dict) and n.keys:
            for k in range(len(n.keys)):
                yield emit('drop key %s' % ast.unparse(n.keys[k] or n.values[k]), n, lambda m, t, k=k: (m.keys.pop(k), m.values.pop(k)) and None)
        if isinstance(n, ast.Call):
            if len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args):
                yield emit('swap arguments of %s' % ast.unparse(n)[:80], n, lambda m, t: m.args.__setitem__(slice(0, 2), m.args[:2][::-1]))
            for k in range(len(n.args)):
                yield emit('drop argument %s' % ast.unparse(n.args[k])[:80], n, lambda m, t, k=k: m.args.pop(k) and None)
            for k in range(len(n.keywords)):
                yield emit('drop keyword %s' % ast.unparse(n.keywords[k])[:80], n, lambda m, t, k=k: m.keywords.pop(k) and None)
            if n.args:
                yield emit('call %s -> argument' % ast.unparse(n)[:80], n, repl(lambda m: m.args[0].value if isinstance(m.args[0], ast.Starred) else m.args[0]))
            if isinstance(n.func, ast.Attribute):
                yield emit('call %s -> receiver' % ast.unparse(n)[:80], n, repl(lambda m: m.func.value))
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
            for a in NAMES.get(n.id, []):
                yield emit('%s -> %s' % (n.id, a), n, lambda m, t, a=a: setattr(m, 'id', a))
        if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
            for a in NAMES.get(n.attr, []):
                yield emit('.%s -> .%s' % (n.attr, a), n, lambda m, t, a=a: setattr(m, 'attr', a))
        if isinstance(n, ast.Return) and n.value is not None:
            yield emit('return %s -> None' % ast.unparse(n.value)[:60], n, lambda m, t: setattr(m, 'value', None))
        if isinstance(n, ast.BinOp):
            yield emit('%s -> left' % ast.unparse(n)[:60], n, repl(lambda m: m.left))
            yield emit('%s -> right' % ast.unparse(n)[:60], n, repl(lambda m: m.right))
        if isinstance(n, ast.arguments) and n.defaults:
            for k in range(len(n.defaults)):
                pass
        if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Load):
            yield emit('%s -> base' % ast.unparse(n)[:60], n, repl(lambda m: m.value))
        if isinstance(n, ast.For):
            yield emit('reverse loop over %s' % ast.unparse(n.iter)[:60], n, lambda m, t: setattr(m, 'iter', ast.parse('list(%s)[::-1]' % ast.unparse(m.iter), mode='eval').body))
            yield emit('skip last of %s' % ast.unparse(n.iter)[:60], n, lambda m, t: setattr(m, 'iter', ast.parse('list(%s)[:-1]' % ast.unparse(m.iter), mode='eval').body))
        if isinstance(n, ast.AugAssign):
            yield emit('%s -> plain' % ast.unparse(n)[:60], n, repl(lambda m: ast.Assign(targets=[m.target], value=m.value)))


def slot():
    i = mp.current_process()._identity[-1]
    w = os.path.join(WORK, 'w%d' % i)
    if not os.path.isdir(w):
        os.makedirs(WORK, exist_ok=True)
        shutil.copytree(REPO, w, ignore=shutil.ignore_patterns('.git', '__pycache__'))
    return w


def passes(job):
    rel, desc, src = job
    w = slot()
    p = os.path.join(w, rel)
    orig = open(os.path.join(REPO, rel)).read()
    open(p, 'w').write(src)
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0')
    try:
        r = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-x', '-q', '-p', 'no:cacheprovider', '--timeout=20', 'tests'], cwd=w, env=env, capture_output=True, timeout=60)
        ok = r.returncode == 0
    except subprocess.TimeoutExpired:
        ok = False
    open(p, 'w').write(orig)
    return ok


def select(cov, lines, per=20):
    """Obligations that analyse one of the lines, spread over the checks."""
    out = []
    for c in sorted(cov):
        hits = [i for i, ls in enumerate(cov[c]) if lines & ls]
        step = max(1, len(hits) // per)
        out.append([(c, i) for i in hits[::step]][:per + 5])
    res = []
    for k in range(per + 5):
        for o in out:
            if k < len(o):
                res.append(o[k])
    return res


def lines_of(rel, desc, cov):
    """Lines that tell which obligations to run for a mutant."""
    src = open(os.path.join(REPO, rel)).read()
    tree = ast.parse(src)
    n = int(desc.split(':')[0].split()[1])
    if ': delete ' in desc:
        head = desc.split(': delete ', 1)[1]
        got = [s for p in ast.walk(tree) if isinstance(getattr(p, 'body', None), list) for s in p.body + getattr(p, 'orelse', []) if isinstance(s, ast.stmt)
               and ast.unparse(s).split('\n')[0][:100] == head and getattr(p, 'lineno', 0) == n]
        ls = set()
        for s in got:
            if isinstance(s, ast.FunctionDef):
                ls |= {b.lineno for b in s.body}
            else:
                ls.add(s.lineno)
    else:
        ls = {n}
    # a class-level line (or a decorator) runs at load time: use the lines of the class's methods
    extra = set()
    for c in ast.walk(tree):
        if isinstance(c, ast.FunctionDef) and any(c.lineno - len(c.decorator_list) - 1 <= l <= c.body[0].lineno - 1 for l in ls):
            extra |= {b.lineno for b in c.body}
        if isinstance(c, ast.ClassDef):
            inside = [l for l in ls if c.lineno <= l <= c.end_lineno and not any(isinstance(f, ast.FunctionDef) and f.lineno <= l <= f.end_lineno for f in c.body)]
            if inside:
                for f in ast.walk(c):
                    if isinstance(f, ast.stmt):
                        extra.add(f.lineno)
    # the statement containing the line
    for st in ast.walk(tree):
        if isinstance(st, (ast.Expr, ast.Assign, ast.Return, ast.Raise, ast.If, ast.For)) and any(st.lineno <= l <= (st.body[0].lineno - 1 if hasattr(st, 'body') else st.end_lineno) for l in ls):
            extra.add(st.lineno)
    return {'%s:%d' % (rel, l) for l in ls | extra}


def detect(job):
    k, rel, desc, src, obs = job
    w = slot()
    p = os.path.join(w, rel)
    orig = open(os.path.join(REPO, rel)).read()
    open(p, 'w').write(src)
    jf = w + '-jobs.json'
    json.dump(obs, open(jf, 'w'))
    env = dict(os.environ, SQLPUZZLE_ROOT=w, PYTHONDONTWRITEBYTECODE='1')
    try:
        r = subprocess.run([sys.executable, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'obrun.py'), 'run', jf], env=env, capture_output=True, text=True, timeout=900)
        d = json.loads(r.stdout.strip().split('\n')[-1])
    except Exception as e:
        d = {'hit': [], 'und': ['error %r' % (e,)], 'n': 0, 's': 0}
    open(p, 'w').write(orig)
    return k, d


def main():
    mode = sys.argv[1]
    if mode == 'gen':
        jobs = []
        seen = set()
        for rel in files():
            src = open(os.path.join(REPO, rel)).read()
            base = ast.unparse(ast.parse(src))
            for m in mutants(src):
                if m is None or m[1] == base or m[1] in seen:
                    continue
                seen.add(m[1])
                jobs.append((rel, m[0], m[1]))
        print(len(jobs), 'mutants')
        with mp.Pool(8) as pool:
            ok = pool.map(passes, jobs, chunksize=8)
        out = [j for j, o in zip(jobs, ok) if o]
        json.dump(out, open(sys.argv[2], 'w'))
        print(len(out), 'pass the tests')
    else:
        jobs = json.load(open(sys.argv[2]))
        cov = {}
        for f in os.listdir('/tmp/cov'):
            cov[f[:-5]] = [set(x) for x in json.load(open('/tmp/cov/' + f))]
        done = {}
        if os.path.exists(sys.argv[3]):
            done = json.load(open(sys.argv[3]))
        todo = []
        for k, (rel, desc, src) in enumerate(jobs):
            if str(k) not in done:
                todo.append((str(k), rel, desc, src, select(cov, lines_of(rel, desc, cov))))
        with mp.Pool(int(os.environ.get('NP', '8'))) as pool:
            for k, d in pool.imap_unordered(detect, todo):
                done[k] = [jobs[int(k)][0], jobs[int(k)][1], d]
                json.dump(done, open(sys.argv[3], 'w'), indent=0)
                if not d['hit']:
                    print('MISSED', k, jobs[int(k)][0], jobs[int(k)][1], d['n'], d['und'][:3], flush=True)
        print(sum(1 for d in done.values() if d[2]['hit']), 'of', len(done), 'reported')
    shutil.rmtree(WORK, ignore_errors=True)


if __name__ == '__main__':
    main()
