#!/bin/bash
# (development) try.sh ENTRY PARAMS [OPTS]: run one harness and summarise
B=$(cd "$(dirname "$0")/.." && pwd)/build; O=$(mktemp -d)
printf 'j\t%s\t%s\t%s\n' "$1" "$2" "${3:-seconds=60}" > $O/jobs
$B/engine/release/symex $B/h.ll $O/jobs $O 1
python3 - $O/j.json <<'P'
import json,sys
d=json.load(open(sys.argv[1]))
for k in ('error','paths','paths_done','paths_assume','forks','steps','checks','exhausted','viol_total','input_bits','queries','unsat','unknown','cache_hits','solver_s','slowest_s','wall_s','reach','inconclusive'):
    if k in d: print(k,str(d[k])[:700],end='; ')
print()
for v in d.get('violations',[])[:6]:
    print('VIOL',v['kind'],v['name']); print('   ','\n    '.join(v['stack'][:5])); print('   ',[(a,b,int(c)) for a,b,c in v['inputs']][:40])
P
rm -rf $O
