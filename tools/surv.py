import json,collections,sys,re
d=json.load(open(f'results/dev.{sys.argv[1]}.json'))
g=collections.defaultdict(list)
for v in d['violations']: g[re.sub(r'\d+','N',v['detail'])[:200]].append(v)
for k,vs in sorted(g.items(),key=lambda x:-len(x[1])):
    v=min(vs,key=lambda v:len(v['case']))
    print(len(vs),v['detail'][:300],'\n    ',v['monitor'],v['index'],v['case'][:900])
