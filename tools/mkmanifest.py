"""Writes MANIFEST.json from the properties that have a module."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {
 'C16': 'Pure functions of their arguments (derivatives of warps): no schedule, clock, fault, I/O or history for a simulation to vary.',
 'C17': 'Pure functions of two shapes or of a list of errors: no schedule, clock, fault, I/O or history for a simulation to vary.',
}
TECH = 'deterministic simulation with fault injection: '
T = json.load(open(os.path.join(HERE, 'tools', 'techniques.json')))
props = [json.loads(l)['id'] for l in open(os.path.join(HERE, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    if p in NA:
        na.append(dict(property=p, reason=NA[p]))
    elif os.path.exists(os.path.join(HERE, 'simfit', 'props', p.lower() + '.py')):
        c = 'python3 check.py --property ' + p
        checks.append(dict(property=p, quick_cmd=c,
                           thorough_cmd='VERIF_TIER=thorough ' + c + ' --tier thorough',
                           evidence_file='evidence/%s.json' % p,
                           technique=TECH + T[p][0], level='exploration',
                           level_note=T[p][1]))
    else:
        na.append(dict(property=p, reason='The check is not built yet.'))
m = dict(version=1,
         setup_cmd='python3 check.py --selftest',
         hooks=dict(guard='none (no hooks were needed; all seams are public '
                    'callables, numpy, streams, sys.settrace and patched '
                    'module attributes inside the simulator process)',
                    enable='nothing to enable', source_commits=[]),
         checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'not applicable')
