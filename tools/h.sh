#!/bin/bash
# dev: run a harness binary and show failures;  h.sh c05 SECS
/verif/build/target-harness/debug/$1 --secs ${2:-6} ${@:3} | python3 -c "
import json,sys
j=json.loads(sys.stdin.read())
for c in j['cases']:
    if c['fail']: print('FAIL', c['case'], c['fail']['inputs'][:20], c['fail']['message'])
    else: print('  ', c['case'],c['evaluations'],c['distinct_nontrivial'])
"
