"""left.py CASE/ITEM: hooq attributes in the captured output, with context; and the source item."""
import json,sys,re
case,item=sys.argv[1].split('/'); d='/verif/.work/try/x/'+case
def flat(ts):
    o=[]
    for t in ts:
        if t[0]=='g': 
            a,b={'(':'()','{':'{}','[':'[]','':('','')}[t[1]]
            o+= [a]+flat(t[2])+[b]
        else: o.append(t[1])
    return o
for l in open(d+'/cap.jsonl'):
    v=json.loads(l)
    if v.get('post')==item:
        f=flat(v['ts'])
        for i,t in enumerate(f):
            if t=='hooq': print('...',' '.join(f[max(0,i-25):i+25]))
