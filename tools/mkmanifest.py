"""Writes /verif/MANIFEST.json from properties.jsonl and the check modules that exist."""
import json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
PY = '/opt/venv/bin/python -m sim.run check %s --tier %s'
NA = {
 'N01': 'pure functions of a byte buffer: no concurrency, time, I/O, process or history for a simulation to vary; '
        'the decoders that use them are exercised with generated values under C04',
}
NOTE = ('Seeded search, not exhaustive: assurance is that no explored run (counts in the evidence file) violates the '
        'property. Trusted: the independent description of the stored formats in sim/objs.py and sim/enc.py, the '
        'simulated gzip helper (tools/check_stub.py compares it with /usr/bin/gzip), zlib and zstandard.')
checks, na = [], []
for line in open(os.path.join(V, 'properties.jsonl')):
    p = json.loads(line)
    if os.path.exists(os.path.join(V, 'sim/props', p['id'] + '.py')):
        checks.append(dict(property=p['id'], quick_cmd=PY % (p['id'], 'quick'), thorough_cmd=PY % (p['id'], 'thorough'),
                           evidence_file='evidence/%s.json' % p['id'],
                           technique='deterministic simulation with fault injection', level='exploration',
                           level_note=NOTE))
    else:
        na.append(dict(property=p['id'], reason=NA.get(p['id'], 'check not built yet')))
m = dict(version=1, setup_cmd='/opt/venv/bin/python tools/setup.py', checks=checks, not_applicable=na,
         notes='No hooks in /repo: every seam (open, subprocess, gzip helper, pipes, clock, threads) is replaced from outside by sim/world.py.')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', [x['property'] for x in na])
