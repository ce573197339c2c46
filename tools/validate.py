import json,jsonschema,sys,os
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
ids=set()
for l in open('/verif/properties.jsonl'):
    o=json.loads(l); jsonschema.validate(o,s); assert o['id'] not in ids; ids.add(o['id'])
if os.path.exists('/verif/MANIFEST.json'):
    m=json.load(open('/verif/MANIFEST.json')); jsonschema.validate(m,json.load(open('/root/.vp/MANIFEST.schema.json')))
    c={x['property'] for x in m['checks']}; n={x['property'] for x in m.get('not_applicable',[])}
    print('claimed',len(c),'na',len(n),'missing',sorted(ids-c-n),'unknown',sorted((c|n)-ids))
es='/root/.vp/EVIDENCE.schema.json'
for f in sorted(os.listdir('/verif/evidence')) if os.path.isdir('/verif/evidence') else []:
    jsonschema.validate(json.load(open('/verif/evidence/'+f)),json.load(open(es)))
print('ok',len(ids))
