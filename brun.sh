#!/bin/bash
# run one bounded module: brun.sh C01 [case]
. /opt/vp/env.sh; export OMP_NUM_THREADS=1
cd /verif && $PY -m bounded "$1" /tmp/b_$1.json $2
$PY - <<P
import json;r=json.load(open('/tmp/b_$1.json'))
print({k:r[k] for k in ('evaluations','cases','distinct_nontrivial','wall_s','skipped_for_time')})
print([ (k['id'],k['case']) for k in r['known']],*r['crashed_workers'][:1])
for f in r['failures'][:40]: print('FAIL',f['case'],str(f['inputs'])[:500],'\n',f['message'][:900])
P
