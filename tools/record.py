#!/usr/bin/env python3
"""Developer aid: record the locals of every function under contract, as they are in the given tree,
so that annotations can follow a renaming (vx/binders.txt), and what the tree defines (vx/known.txt).
usage: record.py [tree]   (a clean tree; default /repo)"""
import json, subprocess, sys, glob, os, tempfile
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
repo = sys.argv[1] if len(sys.argv) > 1 else '/repo'
vx = root + '/vx/target/debug/vx'
FIELD = 'jester_maths/src/prime.rs#prime_fields(v=pub;name=F;prime=vp_lit();radix=vp_radix())'
def build(): subprocess.run(['cargo', 'build', '--offline', '--quiet'], cwd=root + '/vx', check=True)
known = subprocess.run([vx, '--list-fns', repo, FIELD], capture_output=True, text=True, check=True).stdout
open(root + '/vx/known.txt', 'w').write(known)
build()
lines = set()
with tempfile.TemporaryDirectory() as d:
    for u in sorted(glob.glob(root + '/units/*.vrs')):
        subprocess.run([vx, u, repo, d + '/o.rs', d + '/m.json'], check=True)
        for f in json.load(open(d + '/m.json'))['functions']:
            if 'binders' in f: lines.add(f"{f['file']}\t{f['name']}\t{f['binders']}")
open(root + '/vx/binders.txt', 'w').write('\n'.join(sorted(lines)) + '\n')
build()
