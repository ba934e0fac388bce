#!/opt/venv/bin/python
"""Writes /verif/MANIFEST.json from the check modules."""
import glob, importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V); sys.dont_write_bytecode = True
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
PURE = {
 'N01': 'pure function of its arguments: no schedule, clock, I/O, fault or shared state takes part, so a simulator has nothing to decide (call-history independence of these routines is claimed in C19)',
 'N02': 'pure numerical identity; the thread schedules of the kernels behind it are covered by C13, history independence by C19',
 'N03': 'pure numerical fit; the external fitter program and its failures are covered by C14, history independence by C19',
 'N04': 'pure numerical identities of a density of states and temperatures; nothing nondeterministic takes part (history independence: C19)',
 'N05': 'pure numerical approximation property; nothing nondeterministic takes part (history independence: C19)',
 'N06': 'pure text function; its use under faults and histories is covered by C01, C02 and C05',
 'N07': 'pure geometry; nothing nondeterministic takes part (history independence: C19, parallel distance kernels: C13)',
 'N08': 'pure array functions; nothing nondeterministic takes part (history independence: C19)',
 'N09': 'pure enumeration of lists; nothing nondeterministic takes part',
}
checks, na = [], []
for p in props:
    fn = V + '/sim/checks/%s.py' % p['id'].lower()
    if os.path.exists(fn):
        m = importlib.import_module('sim.checks.' + p['id'].lower())
        checks.append(dict(property=p['id'], quick_cmd='./check.py %s --tier quick' % p['id'],
            thorough_cmd='./check.py %s --tier thorough' % p['id'], evidence_file='evidence/%s.json' % p['id'],
            technique=getattr(m, 'TECHNIQUE', 'deterministic simulation with fault injection, seeded search'),
            level=m.LEVEL, level_note=getattr(m, 'NOTE', m.RULE)))
    else:
        na.append(dict(property=p['id'], reason=PURE.get(p['id'], 'check not built yet')))
d = dict(version=1, setup_cmd='./setup.sh', hooks=dict(guard='none', enable='no hooks in /repo: the seams are LD_PRELOAD (libc file calls), sys.settrace, fork, PATH and a replacement libgomp, all outside /repo', source_commits=[]),
         checks=checks, not_applicable=na,
         notes='Every check: VERIF_SEED decides all runs; exit 0 / 1 (VIOLATION line with replay file); other exit codes are harness errors. Replay: ./check.py ID --replay FILE.')
json.dump(d, open(V + '/MANIFEST.json', 'w'), indent=1)
open(V + '/MANIFEST.json', 'a').write('\n')
print(len(checks), 'checks', len(na), 'n/a')
