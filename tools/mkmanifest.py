"""Writes MANIFEST.json from properties.jsonl and the check modules present."""
import importlib, json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
NA = {
    'C24': 'Depends on the lexer and session mode of a database server outside the source (NO_BACKSLASH_ESCAPES, standard_conforming_strings, '
           'numeric precision); no analysis of this repository can decide it. What the library itself writes is decided by C02 and C04.',
    'C25': 'A statement about running time over unbounded inputs; no sound bound on the cost of the interpreter and the quadratic '
           'duplicate scan is in reach of a static argument here. The part that can be decided, exponential backtracking of the patterns, is C26.',
}
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if i in NA:
        na.append({'property': i, 'reason': NA[i]})
        continue
    if not os.path.exists(os.path.join(HERE, 'sa', 'checks', i.lower() + '.py')):
        na.append({'property': i, 'reason': 'check not built yet'})
        continue
    mod = importlib.import_module('sa.checks.' + i.lower())
    checks.append({
        'property': i,
        'quick_cmd': 'python3 -m sa.run %s --tier quick' % i,
        'thorough_cmd': 'python3 -m sa.run %s --tier thorough' % i,
        'technique': getattr(mod, 'TECHNIQUE', '') or 'static analysis: abstract interpretation of the source over a string-shape domain with trace partitioning',
        'level': 'other',
        'level_note': getattr(mod, 'NOTE', '') or ('Decides the obligations listed in the evidence for every value of the abstract inputs; bounds on the number of calls/parts per '
                      'history are stated in DESIGN.md. Trusts the abstract models of Python builtins. An alarm counts only if it survives '
                      'constant propagation of a concrete instance.'),
    })
json.dump({'version': 1, 'setup_cmd': 'python3 -m sa.selftest', 'checks': checks, 'not_applicable': na,
           'notes': 'No hooks in /repo. Known findings and repaired defects: known_findings.json.'},
          open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not')
