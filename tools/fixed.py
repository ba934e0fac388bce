#!/opt/venv/bin/python
"""Rewrites the "fixed" entries of known_findings.jsonl from the fix commits in
/repo.  These entries suppress nothing."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROP = {}
for l in '''c89f418 C14 d30b428 C14 1e097d8 C14 1a185bc C15 8b9ff7b C15 1f9989a C15 02ded6c C15 9db7ca1 C15 9f2d75d C20 003dbbc C16 1580cc6 C14 039729e C14 ba8ce6a C14 5989f14 C13
a61fa89 C12 7235f54 C13 6fc0071 C12 1bb58c2 C12 69ff5ef C11 c1a3aba C11 fa594de C09 cf39164 C10 c69ba3a C10 d95f454 C10 cb642ee C10 50f1d71 C10 59a3801 C10 986cc24 C10 be5a443 C08 43203e2 C08
4d9f0da C07 f6045fc C07 f317777 C07 9e961e8 C07 6aabadd C06 9f67909 C06 8a9be36 C06 10a6369 C06 7ae3d88 C05 efbf2b8 C05 e5357dd C05 fec1700 C04 635ed1c C04 4de4771 C02 f6ad0bc C02 f62a849 C01
d56d249 C01 42df822 C01 a50e302 C03 062ca3e C01'''.split('\n'):
    w = l.split()
    PROP.update(zip(w[::2], w[1::2]))
fn = V + '/tools/fixprops.txt'
if os.path.exists(fn):
    for l in open(fn):
        w = l.split()
        if w: PROP[w[0]] = w[1]
keep = [l for l in open(V + '/known_findings.jsonl') if l.strip() and json.loads(l).get('status') != 'fixed']
log = subprocess.run(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s', '656cf2e..HEAD'], capture_output=True, text=True, check=True).stdout
for l in log.strip().split('\n'):
    h, s = l.split(' ', 1)
    if not s.startswith('fix: '):
        continue
    p = PROP.get(h)
    if not p:
        sys.exit('no property for %s %s' % (h, s))
    keep.append(json.dumps(dict(id='FIX-' + h, property=p, status='fixed', commit=h, what='fixed: property=%s %s %s' % (p, h, s[5:]))) + '\n')
open(V + '/known_findings.jsonl', 'w').write(''.join(keep))
print(len(keep))
