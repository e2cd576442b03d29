"""diff.py CASE/ITEM [BASE]: where the code without hooks differs from the annotated code."""
import json,subprocess,sys,os
sys.path.insert(0,'/verif')
from vlib import common as C
case,item=sys.argv[1].split('/'); base=sys.argv[2] if len(sys.argv)>2 else '/verif/.work/try/x'
art=C.build()
d=os.path.join(base,case)
r=subprocess.run([art['vproj'],d+'/job.json'],capture_output=True,text=True,env=dict(os.environ,VPROJ_DIFF='1',VPROJ_ONLY=item))
ls=r.stderr.split("\n")
for a,b in zip(ls[::2],ls[1::2]):
    a,b=a.split(' '),b.split(' ')
    i=1
    while i<min(len(a),len(b)) and a[i]==b[i]: i+=1
    print('A',' '.join(a[max(0,i-12):i+12])); print('B',' '.join(b[max(0,i-12):i+12]))
