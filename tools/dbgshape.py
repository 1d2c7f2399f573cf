import sys; sys.path.insert(0,'/verif/engine')
import threading
sys.setrecursionlimit(100000); threading.stack_size(512*1024*1024)
def main():
    from check import Prog, at_params
    import json,time
    out=sys.argv[1]; name=sys.argv[2]
    fs={e["path"].split("verif_spec::")[-1]:e["file"] for e in json.load(open(out+"/index.json"))}
    n="l" if name+"::l" in fs else "vl"
    for sz in eval(sys.argv[3]):
        for nm in eval(sys.argv[4]):
            t=time.time()
            if len(sys.argv)>5:
                import cProfile; pr=cProfile.Profile(); pr.enable()
            r=at_params(Prog(out+"/"+fs[name+"::"+n]),Prog(out+"/"+fs[name+"::"+n[:-1]+"r"]),n=="l",[(sz,nm)],100)
            if len(sys.argv)>5:
                pr.disable(); import pstats; pstats.Stats(pr).sort_stats("cumtime").print_stats(35)
            print(sz,nm,r[0],round(time.time()-t,2),r[2].flags,dict(r[2].unknown))
            if r[0] is not True and r[1]:
                print(str(r[3][0])[:600]); print(str(r[4][0])[:600]); print("P",str(r[3][1]["panic"])[:300]); print("P",str(r[4][1]["panic"])[:300])
                for a,b,m in r[1].reasons: print("DIFF",str(a)[:400],"VS",str(b)[:400],"UNDER",{str(k):v for k,v in m.items()})
t=threading.Thread(target=main); t.start(); t.join()
