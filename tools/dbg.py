import sys; sys.path.insert(0,'/verif/engine')
import threading, json
from check import *
sys.setrecursionlimit(100000); threading.stack_size(512*1024*1024)
def main():
    out=sys.argv[1]; name=sys.argv[2]
    fs={e["path"].split("verif_spec::")[-1]:e["file"] for e in json.load(open(out+"/index.json"))}
    n="l" if name+"::l" in fs else "vl"
    ev=Ev(); l=summarise(Prog(out+"/"+fs[name+"::"+n]),ev); r=summarise(Prog(out+"/"+fs[name+"::"+n[:-1]+"r"]),ev)
    print("FLAGS",ev.flags,ev.unknown)
    print("L",l[0]); print("R",r[0]); print("PL",l[1]["panic"]); print("PR",r[1]["panic"])
    if n=="l": print("TL",l[1]["trace"]); print("TR",r[1]["trace"])
    sz=eval(sys.argv[3]) if len(sys.argv)>3 else None
    if sz:
        nums=eval(sys.argv[4]) if len(sys.argv)>4 else (1,)
        ts,inst=instance([l[0],r[0],l[1]["panic"],r[1]["panic"],l[1]["trace"],r[1]["trace"]],sz,nums)
        print("INST",[(str(a),str(b)) for a,b in inst])
        for t,x in zip(("L","R","PL","PR","TL","TR"),ts): print(t,x)
        c=Cmp(ev,n=="l"); print(c.outcome((ts[0],{"panic":ts[2],"trace":ts[4]}),(ts[1],{"panic":ts[3],"trace":ts[5]}),{},0))
        for a,b,m in c.reasons: print("DIFF",a,"VS",b,"UNDER",{str(k):v for k,v in m.items()})
t=threading.Thread(target=main); t.start(); t.join()
