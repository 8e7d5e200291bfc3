#!/bin/bash
# dev helper: rep.sh feature ll entry: find a counterexample and replay it natively
cd /verif
${RVB:-target/engine/release/rvsym} --ll $2 --entry $3 --time ${T:-60} --tmp /tmp $OPT 2>&1 | tail -1 > /tmp/rep.json
python3 - <<'P'
import json
d=json.load(open('/tmp/rep.json'));print(d['result'],d.get('what'),d.get('where','')[:300])
open('/tmp/rep.in','w').write('\n'.join(','.join(map(str,b)) for b in d.get('inputs',[]))+'\n')
P
RUST_BACKTRACE=${BT:-0} ./replay.sh $1 $3 /tmp/rep.in 2>&1 | grep -A3 "panicked" | head -${N:-8}
