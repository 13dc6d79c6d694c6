import json,jsonschema,os,sys
R='/verif/'
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
ids=[]
for l in open(R+'properties.jsonl'):
    d=json.loads(l); jsonschema.validate(d,s); ids.append(d['id'])
    n=d['statement'].count('. ')+1
    if n>3: print('too many sentences',d['id'],n)
m=json.load(open(R+'MANIFEST.json'))
jsonschema.validate(m,json.load(open('/root/.vp/MANIFEST.schema.json')))
c={x['property'] for x in m['checks']}|{x['property'] for x in m['not_applicable']}
print('uncovered',set(ids)-c,'unknown',c-set(ids))
