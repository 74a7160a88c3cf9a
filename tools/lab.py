#!/usr/bin/env python3
import json,sys
d=json.load(open(f'/verif/evidence/{sys.argv[1]}.json'))
for k,v in d['coverage']['per_check'].items(): print(k,v['evaluations'],v['distinct_nontrivial'],{a:b for a,b in v['classes'].items() if 'operator' not in a or len(sys.argv)>2})
