#!/bin/bash
# run1.sh ENTRY PARAMS [opts] : quick manual run
cd /verif/harness
e=$1; p=$2; shift 2
../build/symx/release/symx target/release/deps/wfh.ll $e /tmp/o.json --params "$p" --val /tmp/v.txt "$@" 2>/tmp/err
tail -3 /tmp/err
python3 -c "
import json;d=json.load(open('/tmp/o.json'));print({k:d[k] for k in ['entry','params','paths','unexplored','wall_s','z3_queries','z3_s','undecided','failures','reach','instructions','longest_path','assertions','assertions_by_domain','assertions_by_z3']})
for f in d['found'][:4]: print(f)"
./target/native/release/replay $e "$p" all /tmp/v.txt
