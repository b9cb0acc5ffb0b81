import json,subprocess
log=subprocess.run(['git','-C','/repo','log','--format=%h\t%s','bd1846c..HEAD'],capture_output=True,text=True).stdout.strip().split('\n')
P={}
for p,hs in {'P08':'b3be8e3 de1b483 43d8cb3','P09':'f8b5b26 f26d701 9dc2957 bb36322 897746e','P11':'7913f86','P15':'db1cd89 990079f 4bc1515 ddc7f59 8290cdb 5dd981a 10d86ab f48165e','P12':'2274267 e393174 d91aa07 ad166b2','P14':'a38d78d 160f2ad bd7e28f','P01':'8056981 3993aa2 9fe957f','P03':'a5172a0 92cd160 9cb3d30 48c5d81 c79af93 fdc2e78 47c55a1 a7353ea 72fa44d 56b1489 608d19a 76e1b5f','P16':'e1eb6fd 35fb017 8481b24 c952da7'}.items():
    for h in hs.split(): P[h]=p
import sys
for a in sys.argv[1:]:
    p,h=a.split('='); P[h]=p
f='/verif/known_findings.json'
k=json.load(open(f))
try: extra=json.load(open('/verif/tools/fixmap.json'))
except Exception: extra={}
extra.update(P); 
json.dump(extra,open('/verif/tools/fixmap.json','w'),indent=1,sort_keys=True)
out=[]
for l in reversed(log):
    h,s=l.split('\t'); assert s.startswith('fix: '),s
    out.append('fixed: property=%s %s %s'%(extra[h],h,s[5:]))
k['fixed']=out
json.dump(k,open(f,'w'),indent=1)
print(len(out))
