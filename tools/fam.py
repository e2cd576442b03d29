"""fam.py EXPR [PROP]: run a family, e.g. fam.py 'F.flavored(1,[dict()],300,"x")'"""
import sys,os,json
sys.path.insert(0,os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import common as C, walk, families as F, check as K
base=C.scratch("fam"); C.build()
cases=eval(sys.argv[1]); res=K.Result(); prop=sys.argv[2] if len(sys.argv)>2 else "all"
tr,_=walk.expand_all(cases, base+"/x")
v,g,d=walk.validate(tr,prop,base)
print(len(tr),"traces",sum(len(t["ev"]) for t in tr),"events",g,"states;",len(v),"differences; not ok:",sum(t["out"]!="ok" for t in tr))
by={t["id"]:t for t in tr}; seen=set()
for x in v:
    if x["trace"] in seen: continue
    seen.add(x["trace"])
    if len(seen)>int(os.environ.get("N","4")): break
    t=by[x["trace"]]; print("==",x["property"],x["what"],x["event"],x["trace"],t["msgs"][:2]); print(K.source_of(t)[:int(os.environ.get("W","900"))])
