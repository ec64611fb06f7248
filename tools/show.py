import json,sys,collections,glob
# summarises the replay files of a property
p=sys.argv[1]
cnt=collections.Counter()
def walk(o):
    if isinstance(o,dict):
        if 'exc' in o: cnt[(o['exc'][:150], (o.get('trace','') or '')[-int(sys.argv[2]) if len(sys.argv)>2 else -200:])]+=1
        for v in o.values(): walk(v)
    elif isinstance(o,list):
        for v in o: walk(v)
for f in glob.glob(f'/verif/evidence/replay/{p}-*.json'):
    walk(json.load(open(f))['obs'])
for (a,b),n in cnt.most_common(8): print(n,a,'\n   ',b)
