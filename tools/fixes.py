"""Writes the 'fixed:' lines of known_findings.jsonl from the log of /repo (property by subject)."""
import os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OF = {}
for line in open(os.path.join(V, 'tools', 'fixes.txt')):
    if '|' in line:
        pid, key, what = [x.strip() for x in line.split('|', 2)]
        OF[key] = (pid, what)
log = subprocess.check_output(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s'], text=True)
out = []
for line in log.splitlines():
    h, s = line.split(' ', 1)
    if not s.startswith('fix:'):
        continue
    m = [k for k in OF if k in s]
    assert len(m) == 1, (s, m)
    pid, what = OF[m[0]]
    out.append('fixed: property=%s %s %s' % (pid, h, what))
p = os.path.join(V, 'known_findings.jsonl')
known = [l for l in open(p).read().splitlines() if l.startswith('{')] if os.path.exists(p) else []
open(p, 'w').write('\n'.join(known + out) + '\n')
