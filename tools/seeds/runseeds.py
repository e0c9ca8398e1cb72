#!/usr/bin/env python3
"""Developer aid: apply each planted bug to /repo, run the check of its property (and others named by --all), undo.
usage: runseeds.py [--all] [id ...]"""
import sys, os, subprocess, json, time
args = [a for a in sys.argv[1:] if a != '--all']; every = '--all' in sys.argv
man = json.load(open('/verif/MANIFEST.json'))
checks = {c['property_id'] if 'property_id' in c else c.get('property', c.get('id')): c for c in man['checks']}
res = {}
for i in sorted(os.listdir('/verif/seeded')):
    if args and not any(i.startswith(a) for a in args): continue
    d = f'/verif/seeded/{i}'
    meta = json.load(open(d + '/meta.json'))
    assert subprocess.run(['git', '-C', '/repo', 'apply', d + '/patch.diff']).returncode == 0
    try:
        for p in (sorted(checks) if every else [meta['property']]):
            if p not in checks: print(i, 'no check for', p); continue
            t = time.time()
            cmd = checks[p].get('quick') or checks[p].get('quick_cmd')
            r = subprocess.run(cmd, shell=True, cwd='/verif', capture_output=True, text=True, env={**os.environ, 'VERIF_SEED': '1', 'VERIF_TIER': 'quick'})
            v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
            if every and r.returncode == 0: continue
            print(f"{i:24s} {p} rc={r.returncode} {time.time()-t:5.1f}s {v[:2]}", flush=True)
    finally:
        subprocess.run(['git', '-C', '/repo', 'checkout', '--', '.'])
