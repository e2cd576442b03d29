import sys,random,collections
sys.path.insert(0,'/verif')
from vlib import common as C, walk, gen
import time
n=int(sys.argv[1]) if len(sys.argv)>1 else 40
seed=int(sys.argv[2]) if len(sys.argv)>2 else 1
base=C.scratch('try')
cases=[]
for i in range(8):
    rng=random.Random(seed*1000+i)
    o=gen.Opts(); o.layout=0.3 if i%2 else 0; o.unicode=i%2==1; o.so=0.3 if i>4 else 0; o.exc=0.2 if i>5 else 0; o.expr_label=0.3 if i==3 else 0
    txt="".join(gen.item(rng,o,f"i{k}") for k in range(n//8))+"fn main(){}\n"
    cases.append(walk.Case(f"c{i}",{"main.rs":txt}))
t=time.time()
traces,hard=walk.expand_all(cases,base+"/x")
print("expand",time.time()-t,len(traces),sum(len(t['ev']) for t in traces))
print(collections.Counter((t['out'],t['al'],t['erase']) for t in traces))
for t in traces:
    if t['out']!='ok': print(t['id'],t['out'],t['msgs'],t.get('why'))
for k,v in hard.items(): print(k,collections.Counter(x[:100] for x in v).most_common(5))
t=time.time()
v,g,d=walk.validate(traces,"all",base)
print("tlc",time.time()-t,g,d,len(v))
for x in v[:15]: print(x)
