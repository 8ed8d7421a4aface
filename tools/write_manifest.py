"""Write MANIFEST.json from properties.jsonl and the modules in pbt/props."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = json.load(open(os.path.join(ROOT, 'tools', 'techniques.json')))
checks, na = [], []
for line in open(os.path.join(ROOT, 'properties.jsonl')):
    pid = json.loads(line)['id']
    if os.path.exists(os.path.join(ROOT, 'pbt', 'props', pid.lower() + '.py')):
        t = TECH[pid]
        cmd = '/opt/venv/bin/python check.py {}'.format(pid)
        checks.append({
            'property': pid,
            'quick_cmd': cmd + ' --tier quick',
            'thorough_cmd': cmd + ' --tier thorough',
            'evidence_file': 'evidence/{}.json'.format(pid),
            'technique': t[0], 'level': 'exploration', 'level_note': t[1]})
    else:
        na.append({'property': pid, 'reason': 'check not built yet'})
m = {'version': 1, 'setup_cmd': '/opt/venv/bin/python tools/selftest.py',
     'checks': checks, 'not_applicable': na}
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
print(len(checks), 'checks;', len(na), 'not claimed')
