import json,sys
p='/verif/known_findings.json'; d=json.load(open(p))
prop,commit,what=sys.argv[1:4]
if commit=="open": d.append(dict(property=prop,status="open",match=sys.argv[4],what=what))
else: d.append(dict(property=prop,status="fixed",commit=commit,match="",what="fixed: property=%s %s %s"%(prop,commit,what)))
json.dump(d,open(p,'w'),indent=1); open(p,'a').write("\n")
