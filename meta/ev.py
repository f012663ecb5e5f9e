import json,sys
for c in sys.argv[1:]:
    d=json.load(open('/verif/evidence/%s.json'%c))
    for k,v in d['coverage']['rules'].items():
        u=v.get('undecided') or []
        print(c,k,v['instances'],'held',v['held'],'undecided',len(u),[str(x)[:100] for x in u[:4]])
