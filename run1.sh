#!/bin/bash
# developer aid: extract and verify one unit
cd /verif; u=$1; shift; o=/tmp/vo/$u; mkdir -p $o
vx/target/debug/vx units/$u.vrs ${REPO:-/repo} $o/$u.rs $o/meta.json || exit 3
verus $o/$u.rs --triggers-mode silent --time-expanded --output-json "$@" >$o/o.json 2>$o/e.txt; head -${N:-60} $o/e.txt; python3 -c "
import json
j=json.load(open('$o/o.json')); print(j['verification-results']); 
fs=[f for m in j.get('times-ms',{}).get('smt',{}).get('smt-run-module-times',[]) for f in m['function-breakdown']]
for f in sorted(fs,key=lambda f:-f['time-micros'])[:5]: print(f['function'],f['time-micros']//1000,'ms',f['rlimit'])
"
