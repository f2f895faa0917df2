#!/bin/bash
# summarise an evidence file: tools/ev.sh C01
python3 - "$1" <<'P'
import json,sys
e=json.load(open(f'/verif/evidence/{sys.argv[1]}.json'));c=e['coverage']
print(e['property'],e['tier'],e['seed'],c['evaluations'],c['distinct_nontrivial'],e['wall_s'],'viol',e['violations'])
for k,v in c['per_check'].items(): print('  ',k,v['evaluations'],v['distinct_nontrivial'],'cut',v['cut_by_time_budget'],'cpu',v['cpu_s'],v['labels'])
P
