"""Writes MANIFEST.json from the list of finished checks."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
TECH = json.load(open(os.path.join(V, 'tools', 'techniques.json')))
NOTE = ('Held on the executions the run produced (counts in the evidence file); says nothing about inputs, options and '
        'random streams it never drew. Trusts the brute-force reference in lib/ref.py, numpy and the compilers.')
checks, na = [], []
for p in props:
    t = TECH.get(p['id'])
    if t and os.path.exists(os.path.join(V, 'checks', p['id'] + '.py')):
        checks.append({'property': p['id'], 'quick_cmd': './run.sh %s --tier quick' % p['id'],
                       'thorough_cmd': './run.sh %s --tier thorough' % p['id'],
                       'evidence_file': 'evidence/%s.json' % p['id'], 'technique': t['technique'],
                       'level': 'exploration', 'level_note': t.get('note', '') + ' ' + NOTE if t.get('note') else NOTE})
    else:
        na.append({'property': p['id'], 'reason': 'not claimed: the check is not built yet'})
json.dump({'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': na,
           'notes': 'Every check copies /repo\'s working tree to a scratch folder, compiles the extension there and runs '
                    'monitors in forked workers (lib/runner.py). No hooks in /repo are needed: monitors wrap public and '
                    'overridable methods at run time.'},
          open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'not claimed')
