#!/bin/bash
# dev helper: run harnesses in parallel, one summary line each
cd /verif
printf '%s\n' "$@" | xargs -P ${P:-8} -I{} sh -c "timeout $((${T:-60}+20)) ${RVB:-target/engine/release/rvsym} --ll ${LL:-target/rvh.ll} --entry {} --time ${T:-60} --tmp /tmp $OPT 2>&1 | tail -1" | python3 -c "
import sys,json
for l in sys.stdin:
  try: d=json.loads(l)
  except Exception: print('BAD',l[:300]); continue
  print(f\"{d['entry']:20} {d['result']:12} t={d.get('time_s')} paths={d.get('paths')} forks={d.get('forks')} mrg={d.get('merges')} ob={d.get('obligations')}/{d.get('oblig_trivial')}/{d.get('oblig_internal')} ext={d.get('ext_queries')}:{d.get('ext_solver_s')}s pq={d.get('path_queries')}/{d.get('path_unknown')}:{d.get('path_solver_s')}s terms={d.get('terms')} {d.get('what','')[:150]} {d.get('where','')[:${W:-100}]}\")
"
