"""DESIGN.md from design_body.md, the checks, the planted bugs and matrix.json."""
import json
import os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = [open(R + '/tools/design_body.md').read()]
out.append('\n## Planted bugs and what catches them\n\n'
           'Quick tier, seed 1, the check of the bug\'s own property unless '
           'others are\nnamed (others were not all run).  "first missed" '
           'marks those that the checks\nhad to be strengthened for.\n\n')
M = json.load(open(R + '/tools/matrix.json'))
missed = set(M.get('first_missed', []))
out.append('| bug | needs | caught by |\n|---|---|---|\n')
for i in sorted(os.listdir(R + '/seeded')):
    m = json.load(open('%s/seeded/%s/meta.json' % (R, i)))
    c = [k for k, v in sorted(M['results'].get(i, {}).items()) if v == 1]
    out.append('| %s | %s | %s%s |\n' % (
        i, m['needs'].replace('|', '/'), ', '.join(c) or '-',
        ' (first missed)' if i in missed else ''))
open(R + '/DESIGN.md', 'w').write(''.join(out))
