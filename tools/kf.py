"""python3 tools/kf.py PROPERTY KEY STATUS WHAT  -- add an entry to known_findings.json (by hand, never by checks)."""
import json, sys
p='/verif/known_findings.json'
d=json.load(open(p))
prop,key,status,what=sys.argv[1:5]
d['findings']=[e for e in d['findings'] if not (e['property']==prop and e['key']==key)]
if status=='fixed': what='fixed: property=%s %s %s'%(prop,sys.argv[5],what)
e={'property':prop,'key':key,'status':status,'what':what}
if len(sys.argv)>5: e['commit']=sys.argv[5]
d['findings'].append(e)
with open(p,'w') as f:
    f.write('{"findings": [\n'+',\n'.join(' '+json.dumps(x) for x in d['findings'])+'\n]}\n')
