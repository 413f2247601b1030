import json,jsonschema,os,glob
R='/verif'
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
ids=set()
for l in open(R+'/properties.jsonl'):
    d=json.loads(l); jsonschema.validate(d,s); ids.add(d['id'])
    n=d['statement'].count('. ')+1
    if n>3: print(d['id'],'sentences',n)
    for f in d['anchors']['files']:
        if not os.path.exists('/repo/'+f): print('missing',d['id'],f)
if os.path.exists(R+'/MANIFEST.json'):
    m=json.load(open(R+'/MANIFEST.json')); jsonschema.validate(m,json.load(open('/root/.vp/MANIFEST.schema.json')))
    c={x['property'] for x in m['checks']}|{x['property'] for x in m.get('not_applicable',[])}
    print('unlisted',ids-c,'unknown',c-ids)
es=json.load(open('/root/.vp/EVIDENCE.schema.json'))
for f in glob.glob(R+'/evidence/*.json'): jsonschema.validate(json.load(open(f)),es)
print('ok')
