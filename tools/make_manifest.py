import json,os,sys
HERE=os.path.dirname(os.path.abspath(__file__)); ROOT=os.path.dirname(HERE)
TECH=json.load(open(os.path.join(HERE,'techniques.json')))
props=[json.loads(l) for l in open(os.path.join(ROOT,'properties.jsonl'))]
checks=[];na=[]
for p in props:
    i=p['id']
    if os.path.exists(os.path.join(ROOT,'pbt','checks',i.lower()+'.py')) and i in TECH:
        checks.append(dict(property=i,quick_cmd='./check.sh %s quick'%i,thorough_cmd='./check.sh %s thorough'%i,technique=TECH[i][0],level='exploration',level_note=TECH[i][1]))
    else:
        na.append(dict(property=i,reason='check not built yet'))
json.dump(dict(version=1,setup_cmd='./setup.sh',checks=checks,not_applicable=na,
   notes='Property-based testing with Hypothesis; no hooks in /repo are needed (public functions only).'),open(os.path.join(ROOT,'MANIFEST.json'),'w'),indent=1)
print(len(checks),'claimed',len(na),'not')
