import signal, sys, os, json, re, time
sys.path.insert(0, os.path.dirname(__file__))
import threading
from terms import *
from eval import *
import models
from compare import Cmp, instance, generators, numerals, outcome_worlds

def summarise(prog, ev, bind=None):
    body = prog.bodies[0]
    env = {"trace": NIL, "panic": FALSE}; ev.stateful = 0
    # laws named *__partial: elements of a type parameter may be incomparable
    ev.partial = "__partial" in body.get("path", "")
    names = dict((l, n) for l, n in body["names"])
    args = []; muts = []
    for j in range(1, body["nargs"] + 1):
        t = prog.types[body["locals"][j]]
        s = bind[j] if bind and j in bind else sym(names.get(j, "p%d" % j))
        if t["k"] == "ref" and t["mut"]:
            env[("arg", j)] = s; r = mk("mref", "arg", j, ()); muts.append((j, names.get(j)))
            args.append(r)
        else: args.append(s)
    ret, env2 = ev.call_inst(prog, 0, args, env, {})
    ret = ev.deref(ret, env2)
    if muts: ret = con("outs", 0, 1, [ret] + [env2[("arg", j)] for j, _ in muts])
    return ret, env2

IMPRECISE = ("iter_mut", "lost-write", "stateful-closure", "next-eff", "collect-eff", "loop-nofix", "setdiscr", "term:", "rv:")
def sure(res, ev):
    """a difference counts only if no step of the summaries was approximated"""
    if res is False and any(f.startswith(IMPRECISE) for f in ev.flags): return None
    return res
SIZES = [(2,), (1,), (0,), (3,), (1, 0), (0, 1), (2, 1), (1, 2), (0, 2, 1), (5,), (4, 5)]
NUMS = [(1,), (0,), (2,), (3,), (0, 1), (2, 1)]

def around(ts):
    """lengths and numbers around the integer constants of the two sides"""
    cs = set(); seen = set()
    def go(x):
        if x.id in seen: return
        seen.add(x.id)
        if x.op == "lit":
            v = x.a[1] if len(x.a) > 1 else x.a[0]
            if isinstance(v, int) and not isinstance(v, bool) and 4 <= v <= 200: cs.add(v)
        elif x.op == "sum":
            v = x.a[0]
            if isinstance(v, int) and 4 <= abs(v) <= 200: cs.add(abs(v))
        elif x.op == "case":
            for k, _ in x.a[1]:
                if isinstance(k, int) and not isinstance(k, bool) and 4 <= k <= 200: cs.add(k)
        for k in kids(x): go(k)
    for t in ts: go(t)
    out = []
    for c in sorted(cs)[:3]:
        for sz, nm in ((c + 1, c + 1), (c, c), (c + 1, c), (c + 2, 1), (2 * c + 1, 2 * c - 1), (2 * c + 1, 2 * c), (2 * c + 2, c + 1), (c, 0), (c + 1, 2), (3, c + 1), (c + 1, c - 1), (2 * c + 1, 2 * c + 1)):
            out.append(((sz,), (nm,)))
            if sz != 3: out.append(((2, sz), (nm, 1)))
    # a bound made of two constants (pieces of c elements, at most d of them)
    for p in sorted({c * d for c in cs for d in cs if 20 < c * d <= 300})[:2]:
        out.append(((p + 1,), (p + 1,))); out.append(((p + 1,), (1,)))
    return out

def within(t, f):
    """f(i) for i = 0.. in a process of its own that ends after t seconds -> the first i for which f gives False, or None"""
    sys.stdout.flush(); sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            signal.signal(signal.SIGALRM, signal.SIG_DFL); signal.setitimer(signal.ITIMER_REAL, t)
            i = 0
            while code == 0:
                x = f(i)
                if x is None: break
                if x is False: code = i + 1
                i += 1
        except BaseException: pass
        finally: os._exit(code)
    st = os.waitpid(pid, 0)[1]
    return os.WEXITSTATUS(st) - 1 if os.WIFEXITED(st) and os.WEXITSTATUS(st) else None
def at_instances(ev, l, r, flow, c0):
    """compare at words of fixed lengths and small integers (instances of the identity)"""
    ts0 = [l[0], r[0], l[1]["panic"], r[1]["panic"], l[1]["trace"] if flow else NIL, r[1]["trace"] if flow else NIL]
    hasnum = bool(numerals(ts0)); n = 0; allok = True; seen = set()
    combos = [(sz, NUMS[i % len(NUMS)]) for i, sz in enumerate(SIZES)]
    if hasnum: combos += [(sz, nm) for sz in ((2,), (0,), (3,), (1,), (5,)) for nm in NUMS]
    # deeper instances, as far as the time allows: for code whose behaviour changes beyond small sizes without comparing with a constant
    deep = ([((2, 1), (nm, 1)) for nm in (5, 8, 12, 17, 33)] if hasnum else []) + [((sz, 2), (3, 2)) for sz in (7, 9, 13, 17)]
    extra = around(ts0);     t0 = time.time(); t1 = None
    for i, (sizes, nums) in enumerate(combos + extra):
        if i >= len(combos):
            # beyond the constants the code compares with: as far as the time allows
            t1 = t1 or time.time()
            if time.time() - t1 > 12: break
        if time.time() - t0 > 60: return (True if allok and n >= 5 else None), c0, n
        try:
            ts, inst = instance(ts0, sizes, nums)
            if not inst: return None, c0, 0
            k = tuple((g.id, v.op, len(v.a) if v.op != "lit" else v.a[1]) for g, v in inst)
            if k in seen: continue
            seen.add(k)
            res, c = outcome_worlds(ev, flow, 6000, (ts[0], {"panic": ts[2], "trace": ts[4]}), (ts[1], {"panic": ts[3], "trace": ts[5]}))
        except (RecursionError, Budget):
            if t1 is None: allok = False
            continue
        n += 1
        if res is False:
            c.inst = inst
            return False, c, n
        if res is None and t1 is None: allok = False
    def at(i):
        if i >= len(deep): return None
        ts, inst = instance(ts0, *deep[i])
        if not inst: return None
        res, c = outcome_worlds(ev, flow, 6000, (ts[0], {"panic": ts[2], "trace": ts[4]}), (ts[1], {"panic": ts[3], "trace": ts[5]}))
        c.inst = inst
        return c if res is False and full else res is not False
    full = False; i = within(3, at) if n else None
    if i is not None:
        full = True; c = at(i)
        if isinstance(c, Cmp): return False, c, n
    return (True if allok and n else None), c0, n

SEQS = ("std::vec::Vec", "smallvec::SmallVec")
def seqfield(prog, t):
    """(variant, field) of a type of the crate that stores a sequence directly (not the vector's own levels)"""
    if not t.get("local") or t["path"].startswith("pvec::"): return None
    for v, x in enumerate(t.get("vs", ())):
        for f, y in enumerate(x["ftys"]):
            if prog.types[y]["k"] == "adt" and prog.types[y]["path"] in SEQS: return v, f
def shaped(prog, j, name, k):
    """parameter j holding a sequence of k opaque elements; k < 0: its variant without one"""
    t = prog.types[prog.bodies[0]["locals"][j]]; sf = seqfield(prog, t) if t["path"] not in SEQS else None
    w = seq([fresh(name) for _ in range(k)])
    if sf is None: return w
    v = sf[0]
    if k < 0: v = [i for i in range(len(t["vs"])) if i != v][(-k - 1) % (len(t["vs"]) - 1)]
    return con(t["path"], v, len(t["vs"]), [w if (v, i) == sf else fresh("%s%d" % (name, i)) for i in range(len(t["vs"][v]["ftys"]))])
def variants(prog, combos):
    """the combinations, and those where a parameter is of its variant without a sequence"""
    ws, _ = params(prog); out = list(combos)
    for p, j in enumerate(ws):
        t = prog.types[prog.bodies[0]["locals"][j]]
        for k in range(1, len(t.get("vs", ())) if t["path"] not in SEQS else 1):
            for sz, nm in combos[:4]:
                z = [sz[i % len(sz)] for i in range(len(ws))]; z[p] = -k; out.append((tuple(z), nm))
    if len(ws) > 1:
        for nm in set(n for _, n in combos[:4]): out.append((tuple(-1 if prog.types[prog.bodies[0]["locals"][j]].get("local") and len(prog.types[prog.bodies[0]["locals"][j]]["vs"]) > 1 else 1 for j in ws), nm))
    return out
def params(prog):
    """parameters that range over sequences and over integers"""
    body = prog.bodies[0]; ws, ns = [], []
    for j in range(1, body["nargs"] + 1):
        t = prog.types[body["locals"][j]]
        if t["k"] == "adt" and (t["path"] == "std::vec::Vec" or seqfield(prog, t)): ws.append(j)
        elif t["k"] == "int" and t.get("s") == "usize": ns.append(j)
    return ws, ns
DEFAULT_AT = [(sz, nm) for sz in ((2, 1), (1, 2), (0, 2, 1), (3,), (1, 0, 2)) for nm in ((1,), (0,), (2, 0), (3, 1))]
def at_params(lp, rp, flow, combos, limit):
    """the two sides at parameters of bounded shape: sequences of the given lengths with opaque elements, given integers"""
    ws, ns = params(lp); names = dict((l, n) for l, n in lp.bodies[0]["names"])
    res = None; n = 0; allok = True; seen = set(); t0 = time.time()
    c = l = r = None; ev = Ev(); fns = {}; sites = 0; flags = set()
    if not ws and not ns: return None, None, ev, None, None
    for sz, nm in variants(lp, combos):
        sh = tuple(sz[i % len(sz)] for i in range(len(ws))), tuple(nm[i % len(nm)] for i in range(len(ns)))
        if sh in seen: continue
        seen.add(sh)
        if time.time() - t0 > limit: flags.add("some-shapes-only"); break
        bind = {}
        for j, k in zip(ws, sh[0]): bind[j] = shaped(lp, j, names.get(j, "p"), k)
        for j, k in zip(ns, sh[1]): bind[j] = lit(k)
        ev = Ev()
        try:
            l = summarise(lp, ev, bind); r = summarise(rp, ev, bind)
            x, c = outcome_worlds(ev, flow, 20000, l, r); x = sure(x, ev)
        except (RecursionError, Budget): x = None
        n += 1; fns.update(ev.analysed if isinstance(ev.analysed, dict) else dict.fromkeys(ev.analysed)); sites = max(sites, ev.sites); flags |= ev.flags
        if x is False:
            c.inst = [(sym(names.get(j, "p%d" % j)), w) for j, w in bind.items()]; res = False; break
        if x is None: allok = False
    else: pass
    if res is None and allok and n: res = True
    if c is not None: c.bounded = n if res is True else 0; c.general = None
    if ev is not None: ev.flags = flags; ev.sites = sites
    return res, c, ev, l, r

def check_pair(lp, rp, flow=False, opts=None, combos=None, only_shapes=False, limit=20):
    """-> result, comparator, ...; comparator.bounded: held at every instance tried, not in general"""
    if only_shapes: return at_params(lp, rp, flow, combos or DEFAULT_AT, limit)
    o = check_pair_(lp, rp, flow, opts)
    if o[0] is None or combos and (o[0] is True and o[1].bounded):
        p = at_params(lp, rp, flow, combos or DEFAULT_AT, limit)
        if p[0] is False: return p
        if p[0] is True and o[0] is None: o = p
    if o[0] is True and o[1].bounded:
        # deeper, as far as three seconds allow
        def at(i): return at_params(lp, rp, flow, [DEEP_AT[i]], 60)[0] is not False if i < len(DEEP_AT) else None
        ws, ns = params(lp)
        i = within(3, at) if ws or ns else None
        if i is not None:
            p = at_params(lp, rp, flow, [DEEP_AT[i]], 60)
            if p[0] is False: return p
    return o
DEEP_AT = [((7, 2), (5, 2)), ((9, 3), (8, 3)), ((13, 2), (12, 1)), ((17, 4), (17, 2)), ((9, 9), (33, 5)), ((33, 1), (65, 0))]
def check_pair_(lp, rp, flow=False, opts=None):
    ev = Ev()
    if opts and "noclone" in opts: ev.noclone = True
    try:
        l = summarise(lp, ev); fl = set(ev.flags); ul = dict(ev.unknown)
        r = summarise(rp, ev)
        res, c = outcome_worlds(ev, flow, None, l, r)
        res = sure(res, ev); c.bounded = 0; c.general = res
        if res is not True:
            ts = [l[0], r[0], l[1]["panic"], r[1]["panic"], l[1]["trace"] if flow else NIL, r[1]["trace"] if flow else NIL]
            if generators(ts) or numerals(ts):
                g = c
                res, c, n = at_instances(ev, l, r, flow, c); res = sure(res, ev)
                c.bounded = n if res is True else 0; c.general = g.general
                if res is None: c.reasons = g.reasons
    except Budget:
        return None, None, ev, None, None
    return res, c, ev, l, r

if __name__ == "__main__":
    def main():
        out = sys.argv[1]; pat = sys.argv[2] if len(sys.argv) > 2 else ""
        idx_ = json.load(open(out + "/index.json"))
        fs = {e["path"]: e for e in idx_}
        cnt = {}
        verbose = "-v" in sys.argv
        for p in sorted(fs):
            nm = p.rsplit("::", 1)[-1]
            if nm not in ("l", "vl"): continue
            if not re.search(pat, p): continue
            base = p.rsplit("::", 1)[0]; rn = nm[:-1] + "r"
            t0 = time.time()
            try:
                res, c, ev, l, r = check_pair(Prog(out + "/" + fs[p]["file"]), Prog(out + "/" + fs[base + "::" + rn]["file"]), flow=nm == "l")
            except Exception as ex:
                if verbose: raise
                print("ERR ", base, type(ex).__name__, ex); cnt["ERR"] = cnt.get("ERR", 0) + 1; continue
            v = {True: "HELD", False: "VIOLATED", None: "UNDECIDED"}[res]
            if res is True and c.bounded: v = "HELD-BOUNDED"
            if res is None and c is not None: print("  general:", c.general)
            if "-i" in sys.argv and c is not None: print("  inst:", [(str(g), str(w)) for g, w in getattr(c, "inst", [])])
            cnt[v] = cnt.get(v, 0) + 1
            if res is not True or verbose:
                print(v, base, "%.2fs" % (time.time() - t0), sorted(ev.flags), dict(list(ev.unknown.items())[:6]))
                if l is not None:
                    print("   L:", str(l[0])[:1500]); print("   R:", str(r[0])[:1500])
                    if l[1]["panic"] is not FALSE or r[1]["panic"] is not FALSE: print("   panics:", str(l[1]["panic"])[:300], "|", str(r[1]["panic"])[:300])
                    if c and c.flow: print("   TL:", str(l[1]["trace"])[:700]); print("   TR:", str(r[1]["trace"])[:700])
                if c and c.reasons and res is False:
                    a, b, m = c.reasons[0]
                    print("   DIFF:", a, " VS ", b, " UNDER ", {str(k): v for k, v in m.items()})
        print(cnt)
    threading.stack_size(512 * 1024 * 1024)
    t = threading.Thread(target=main); t.start(); t.join()
