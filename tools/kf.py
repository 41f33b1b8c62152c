import json,sys
p='/verif/known-findings.json'
d=json.load(open(p))
a=sys.argv[1]
if a=='fixed': d['Fixed'].append(sys.argv[2])
else:
    d['Known'].append(dict(property=sys.argv[2],fn=sys.argv[3],kind=sys.argv[4],msg=sys.argv[5],what=sys.argv[6]))
json.dump(d,open(p,'w'),indent=1)
