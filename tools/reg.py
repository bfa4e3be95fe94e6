"""tools/reg.py ID technique level_note : registers a check in techniques.json and rewrites the manifest"""
import json,os,sys
p=os.path.join(os.path.dirname(os.path.abspath(__file__)),'techniques.json')
d=json.load(open(p)); d[sys.argv[1]]=[sys.argv[2],sys.argv[3] if len(sys.argv)>3 else '']
json.dump(dict(sorted(d.items())),open(p,'w'),indent=1)
exec(open(os.path.join(os.path.dirname(p),'make_manifest.py')).read())
