import json,sys
from collections import Counter
d=json.load(open(sys.argv[1]))
print(d['evaluations'],d['distinct_nontrivial'],d['distinct_states'],d['counters'],d['harness_errors'][:3])
c=Counter(); ex={}
for f in d['failures']:
    for v in f['viols'][:1]:
        k=(v['prop'],v['sig']); c[k]+=1; ex.setdefault(k,(f['case'],v['msg']))
for k,n in c.most_common(): print(n,k,ex[k])
