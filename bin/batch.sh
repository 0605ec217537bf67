#!/bin/bash
# (development) batch.sh < "ENTRY PARAMS [OPTS]" lines: run harnesses in parallel, one line each
B=$(cd "$(dirname "$0")/.." && pwd)/build; O=$(mktemp -d); n=0
while read -r e p o; do n=$((n+1)); printf '%s\t%s\t%s\t%s\n' "j$n" "$e" "$p" "${o:-seconds=120}"; done > $O/jobs
$B/engine/release/symex $B/h.ll $O/jobs $O ${THREADS:-8} >/dev/null
python3 - $O <<'P'
import json,sys,os
O=sys.argv[1]
tot=0;reach={}
for l in open(O+'/jobs'):
    j,e,p,o=l.rstrip('\n').split('\t')
    try: d=json.load(open(f'{O}/{j}.json'))
    except Exception as x: print(e,p,'NO RESULT',x); continue
    bad=d.get('error') or not d.get('exhausted') or d.get('viol_total') or d.get('inconclusive')
    for k,v in (d.get('reach') or {}).items(): reach[k]=reach.get(k,0)+v
    print(e,p,'%.1fs'%d.get('wall_s',0),'paths',d.get('paths_done'),'checks',d.get('checks'),'' if not bad else 'BAD error=%s exhausted=%s viol=%s inc=%s'%(d.get('error'),d.get('exhausted'),d.get('viol_total'),str(d.get('inconclusive'))[:200]))
    for v in d.get('violations',[])[:3]:
        print('  VIOL',v['kind'],v['name'],[(a,b,int(c)) for a,b,c in v['inputs']][:40]); print('     ','\n      '.join(v['stack'][:4]))
print(reach)
P
/bin/rm -rf $O
