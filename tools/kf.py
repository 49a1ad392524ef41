import json,sys
k=json.load(open('/verif/known_findings.json'))
prop,key,what=sys.argv[1:4]
if not any(f['property']==prop and f['key']==key for f in k['known']):
    k['known'].append({'property':prop,'key':key,'what':what})
json.dump(k,open('/verif/known_findings.json','w'),indent=1)
