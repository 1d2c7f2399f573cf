"""Rules over the facts of the analysed crate, one generator per property.

Each yields obligations {name, status: held|violated|undecided, where, why, fns, sites}."""
import json, os, re, glob
HERE = os.path.dirname(os.path.abspath(__file__))

class Facts: pass
def load(out):
    F = Facts(); F.out = out
    if not os.path.exists(out + "/facts.json"): return F
    j = json.load(open(out + "/facts.json"))
    F.fns, F.adts, F.impls, F.other, F.unsafe = (j[k] for k in ("fns", "adts", "impls", "other", "unsafe"))
    F.dropped = json.load(open(out + "/dropped.json"))
    F.log = "".join(open(f).read() for f in sorted(glob.glob(out + "/cargo*.log")))
    return F
def ob(name, bad, why, where="", fns=(), sites=0):
    """bad: list of (where, what)"""
    if bad: return dict(name=name, status="violated", where=bad[0][0], why="; ".join("%s: %s" % b for b in bad[:8]), fns=list(fns), sites=sites)
    return dict(name=name, status="held", where=where, why=why, fns=list(fns), sites=sites)
def calls(body):
    """(callee, span) of every call of a shallow body"""
    for b in body.get("bodies") or []:
        if not b or not b.get("ok"): continue
        for blk in b["blocks"]:
            if blk and blk["t"][0] == "call": yield blk["t"][1], blk["t"][5]

# ------------------------------------------------------------------ C26
def rule_C26(F):
    n = len(F.fns)
    yield ob("no unsafe block written in the crate", [(u["span"], "unsafe block in %s%s" % (u["fn"], " (macro %s)" % u["macro"] if u["macro"] else "")) for u in F.unsafe if not u["external"]],
             "%d bodies, %d unsafe blocks, all %d from macros of other crates (%s)" % (n, len(F.unsafe), len(F.unsafe), ", ".join(sorted({u["macro"] for u in F.unsafe}))), fns=[f["path"] for f in F.fns])
    yield ob("no unsafe function", [(f["span"], "unsafe fn " + f["path"]) for f in F.fns if f.get("unsafe")], "%d function signatures" % n)
    yield ob("no unsafe trait implementation", [(i["span"], "unsafe impl %s for %s" % (i["trait"], i["self"])) for i in F.impls if i["unsafe"]], "%d trait implementations" % len(F.impls))
    yield ob("no static mut, extern block, unsafe trait or union", [(o["span"], o["kind"] + " " + o["path"]) for o in F.other if o["kind"] != "static"] + [(a["span"], "union " + a["path"]) for a in F.adts if a["union"]],
             "%d statics, %d types" % (len(F.other), len(F.adts)))
    raw = [(a["span"], "%s holds a raw pointer (%s)" % (a["path"], tr)) for a in F.adts for p, tr in a["reach"] if p == "*raw" and "argument of" not in tr]
    yield ob("no raw pointer in a type of the crate", raw, "%d types, %d reachable component types" % (len(F.adts), sum(len(a["reach"]) for a in F.adts)))
    yield from witnesses(F, "c26")

# ------------------------------------------------------------------ C23
CELL = re.compile(r"(^|::)(Cell|RefCell|UnsafeCell|OnceCell|LazyCell|OnceLock|LazyLock|Mutex|RwLock|Condvar|Atomic\w+|Once|SyncUnsafeCell|mpsc::\w+|Weak)$")
def rule_C23(F):
    roots = [a for a in F.adts if a["path"] in ("pvec::core::PersistentVector", "pvec::iter::PersistentVectorIter", "pvec::iter::PersistentVectorIntoIter")]
    if not roots:
        yield dict(name="persistent vector types", status="undecided", where="", why="no type pvec::core::PersistentVector", fns=[], sites=0); return
    for a in roots:
        bad = []; n = 0
        for p, tr in a["reach"]:
            n += 1
            at = a["span"] + " via " + tr
            if CELL.search(p): bad.append((at, "contains %s, which can be written through a shared reference" % p))
            elif p == "*raw": bad.append((at, "contains a raw pointer"))
            elif p == "&mut": bad.append((at, "contains a mutable reference"))
            elif p in ("dyn", "fnptr"): bad.append((at, "contains a %s, which may hide shared state" % p))
        yield ob("nothing reachable from %s is writable when shared" % a["path"].rsplit("::", 1)[-1], bad, "%d component types: %s" % (n, ", ".join(sorted({p for p, _ in a["reach"]}))), a["span"], sites=n)
    own = sorted({p for a in roots for p, _ in a["reach"] if any(b["path"] == p for b in F.adts)})
    fns = [f for f in F.fns if f["path"].lstrip("<").startswith("pvec::") or f.get("self", "").startswith("pvec::")]
    u = [(x["span"], "unsafe block in " + x["fn"]) for x in F.unsafe if not x["external"] and ("pvec::" in x["fn"])]
    u += [(f["span"], "unsafe fn " + f["path"]) for f in fns if f.get("unsafe")]
    u += [(i["span"], "unsafe impl %s for %s" % (i["trait"], i["self"])) for i in F.impls if i["unsafe"] and "pvec::" in i["self"]]
    yield ob("no unchecked code touches the nodes", u, "%d functions of the vector, its nodes (%s) and its iterators" % (len(fns), ", ".join(own)), fns=[f["path"] for f in fns], sites=sum(1 for f in fns for _ in calls(f["body"])))
    # a vector hands out nothing through which a shared vector could be written
    bad = []
    for f in fns:
        sig = f.get("sig", "")
        if not f.get("public") or "->" not in sig: continue
        ret = sig.split("->")[-1]; par = sig[:sig.rindex("->")]
        if "&mut " in ret and "&mut " not in par.replace("&'a mut ", "&mut "): bad.append((f["span"], "%s returns a mutable reference from a shared one" % f["path"]))
    yield ob("no mutable view is handed out of a shared vector", bad, "%d public signatures" % sum(1 for f in fns if f.get("public")))
    g = [(o["span"], o["path"]) for o in F.other if o["kind"] == "static" and o["span"].startswith("src/pvec/")]
    yield dict(name="no global state in the vector's module", status="undecided" if g else "held", where=g[0][0] if g else "", why="statics: %s" % g if g else "no static item", fns=[], sites=0)
    yield from witnesses(F, "c23")

def witnesses(F, mod):
    src = open("%s/../spec/%s.rs" % (HERE, mod)).read().split("\n")
    drop = [(a, b) for m, a, b in F.dropped if m == mod]
    for i, l in enumerate(src, 1):
        m = re.match(r"wit!\((\w+) ", l)
        if not m: continue
        nm = "witness " + m.group(1)[4:]
        if any(a <= i <= b for a, b in drop):
            errs = [e for e in re.split(r"\n(?=error|warning)", F.log) if re.search(r"(?:spec_)?%s\.rs:%d:" % (mod, i), e)]
            auto = [e for e in errs if re.search(r"cannot be (sent|shared) between threads safely", e)]
            if auto:
                field = re.findall(r"required because it appears within the type `([^`]*)`", auto[0])
                at = re.findall(r"-->\s*(src/[^\s]+)", auto[0])
                yield dict(name=nm, status="violated", where=at[0] if at else "?", why=auto[0].split("\n")[0] + (" within " + " in ".join(field) if field else ""), fns=[], sites=0)
            else: yield dict(name=nm, status="undecided", where="", why="the witness does not compile: " + (errs[0].split("\n")[0] if errs else "?"), fns=[], sites=0)
        else: yield dict(name=nm, status="held", where="", why="Send and Sync whenever its contents are: " + l[l.rindex("]") + 1:].strip(" );"), fns=[], sites=1)

# ------------------------------------------------------------------ summaries of roots
def summary(F, name, interfere=False):
    """value-flow summary of a root! of the specification -> (value, env, ev) or None"""
    import threading, sys
    from eval import Prog, Ev
    import models, check
    idx = {e["path"].split("verif_spec::", 1)[-1]: e["file"] for e in json.load(open(F.out + "/index.json"))}
    f = idx.get(name + "::l")
    if f is None: return None, "the root %s does not compile against this tree" % name
    box = {}
    def go():
        try:
            ev = Ev(); ev.interfere = interfere
            v, env = check.summarise(Prog(F.out + "/" + f), ev)
            box["r"] = (v, env, ev)
        except Exception as x: box["e"] = "%s: %s" % (type(x).__name__, str(x)[:120])
    threading.stack_size(512 * 1024 * 1024)
    t = threading.Thread(target=go); t.start(); t.join()
    return box.get("r"), box.get("e")

def cofactor(t, s, k):
    """t where the decision s is known to take arm k"""
    from terms import rebuild
    memo = {}
    def f(x):
        r = memo.get(x.id)
        if r is None:
            if x.op == "case" and x.a[0] is s:
                r = None
                for kk, y in x.a[1]:
                    if kk == k: r = f(y)
                if r is None:
                    for kk, y in x.a[1]:
                        if kk == "else": r = f(y)
                if r is None:
                    from terms import BOT
                    r = BOT
            else: r = rebuild(x, f)
            memo[x.id] = r
        return r
    return f(t)
def first_case(t, seen):
    if t.id in seen: return None
    seen.add(t.id)
    from terms import kids
    if t.op == "case": return t
    if t.op == "lam": return None
    for k in kids(t):
        r = first_case(k, seen)
        if r is not None: return r
    return None
def paths(items, lim=400):
    """all combinations of decisions: (path condition {scrutinee: arm}, items)"""
    out = []; todo = [({}, list(items))]
    while todo:
        cond, its = todo.pop()
        c = None
        for it in its:
            c = first_case(it, set())
            if c is not None: break
        if c is None: out.append((cond, its)); continue
        if len(out) + len(todo) > lim: return None
        s = c.a[0]; ks = [k for k, _ in c.a[1]]
        for k in ks: todo.append(({**cond, s: k}, [cofactor(x, s, k) for x in its]))
    return out
def events(w):
    """the trace as a list of (what, args), or None"""
    from terms import parts_of
    out = []
    for p in parts_of(w):
        if p.op != "unit" or p.a[0].op != "ev": return None
        f = p.a[0].a[0]
        out.append((f.a[0][5:] if f.op == "fn" and f.a[0].startswith("sync:") else "call", p.a[0].a[1:] if f.op == "fn" and f.a[0].startswith("sync:") else p.a[0].a))
    return out
def locals_of(ev, spanof):
    return sorted(p for p in ev.analysed if "verif_spec" not in p)

# ------------------------------------------------------------------ C14: the memoizer's lock protocol
def rule_C14(F):
    from terms import discr, proj, show, BOT, FALSE
    where = next((f["span"] for f in F.fns if f["path"].endswith("Memoizer::<K, V>::get_or_compute")), "src/datatypes/wrapper/memoizer.rs")
    for nm, root in (("get_or_compute", "c14::shared_request"), ("clear", "c14::shared_clear")):
        r, err = summary(F, root)
        if r is None:
            yield dict(name="%s under interference" % nm, status="undecided", where="", why=str(err), fns=[], sites=0); continue
        v, env, ev = r
        q = getattr(ev, "acq", [])
        fin = [env.get((a.fid, 0)) or a.m for a in q]
        ps = paths([v, env["panic"], env["trace"]] + fin)
        fns = locals_of(ev, None)
        if ps is None or ev.flags or not q:
            yield dict(name="%s under interference" % nm, status="undecided", where=where, why="the summary is not in the recognised form (%s)" % (", ".join(sorted(ev.flags)) or "no lock acquisition found"), fns=fns, sites=ev.sites); continue
        bad = []; und = []; npath = 0
        def getterm(m): return None
        for cond, its in ps:
            R, pn, tr, Fs = its[0], its[1], its[2], its[3:]
            if R.op == "bot": continue
            npath += 1
            cs = "; ".join("%s = %s" % (show(s), {0: "no", 1: "yes"}.get(k, k)) for s, k in cond.items())
            es = events(tr)
            if es is None: und.append("calls are not a plain sequence when " + cs); continue
            if any(e[0] == "deadlock" for e in es): bad.append("the lock is taken again while it is held when " + cs)
            present = {}
            for s, k in cond.items():
                if s.op == "discr" and s.a[0].op == "fn" and s.a[0].a[0] == "mapget":
                    for i, a in enumerate(q):
                        if s.a[0].a[2] is a.m: present[i] = (k, s.a[0])
            seen = {int(e[1][0].a[1]) - 1 for e in es if e[0] == "acquire"}
            stores = []
            for i, a in enumerate(q):
                if i not in seen or Fs[i] is a.m: continue
                f = Fs[i]
                if f.op == "fn" and f.a[0] == "emptymap" and nm == "clear": continue
                if f.op == "fn" and f.a[0] == "mapput" and f.a[2] is a.m: stores.append((i, f.a[3], f.a[4])); continue
                if f.op == "bot": continue
                if f.op == "fn" and f.a[0] in ("emptymap", "mapdel", "mapput"):
                    if nm == "get_or_compute": bad.append("an entry other than the requested one is changed (%s) when %s" % (show(f), cs))
                    else: bad.append("clear leaves %s" % show(f))
                else: und.append("cache becomes %s when %s" % (show(f)[:80], cs))
            if nm == "clear":
                if stores: bad.append("clear stores an entry")
                if not any(Fs[i].op == "fn" and Fs[i].a[0] == "emptymap" for i in seen): bad.append("clear does not empty the cache")
                if any(e[0] == "call" for e in es): bad.append("clear calls a function")
                continue
            calls_ = [e for e in es if e[0] == "call"]
            hit = [i for i in sorted(seen) if present.get(i, (0,))[0] == 1]
            if 0 in hit and calls_: bad.append("the function is called although the key is present when " + cs)
            if len(calls_) > 1: bad.append("the function is called %d times when %s" % (len(calls_), cs))
            held = []
            for e in es:
                if e[0] == "acquire": held.append(int(e[1][0].a[1]) - 1)
                elif e[0] == "release" and int(e[1][0].a[1]) - 1 in held: held.remove(int(e[1][0].a[1]) - 1)
                elif e[0] == "call" and not any(q[i].kind == "write" and present.get(i, (None,))[0] == 0 for i in held):
                    bad.append("the function is called outside a section that holds the lock exclusively and has found the key absent, so that two threads can both compute, when " + (cs or "always"))
            for i, k, x in stores:
                if q[i].kind != "write": bad.append("store without exclusive access when " + cs)
                if present.get(i, (None,))[0] != 0:
                    bad.append("an entry is stored in critical section %d without having found it absent in that same section, so that a result stored by another thread is overwritten, when %s" % (i + 1, cs or "always"))
                if x is not R: bad.append("the stored value %s is not the returned value %s when %s" % (show(x), show(R), cs))
                if len(calls_) == 0: bad.append("a value is stored without a computation when " + cs)
            if not stores:
                src = [i for i in hit if R is proj(1, 0, present[i][1])]
                if not src: bad.append("the returned value %s is neither the stored entry nor stored when %s" % (show(R), cs or "always"))
        if und and not bad: yield dict(name="%s under interference" % nm, status="undecided", where=where, why="; ".join(und[:3]), fns=fns, sites=ev.sites)
        else: yield ob("%s under interference" % nm, [(where, b) for b in bad], "%d paths over %d lock acquisitions, the cache being arbitrary at each acquisition: %s" % (npath, len(q), ", ".join("%d:%s" % (a.n, a.kind) for a in q)), where, fns=fns, sites=ev.sites)
    others = [f for f in F.fns if f.get("self", "").startswith("datatypes::wrapper::memoizer::Memoizer") and f.get("public") and f["path"].rsplit("::", 1)[-1] not in ("new", "default", "get_or_compute", "clear")]
    yield dict(name="no other public operation reaches the cache", status="undecided" if others else "held", where=others[0]["span"] if others else "", why=", ".join(f["path"] for f in others) or "public operations: new, default, get_or_compute, clear; the cache is a private field", fns=[], sites=0)

# ------------------------------------------------------------------ C13: one future, run once, by whichever thread comes first
def rule_C13(F):
    from terms import discr, proj, show, FALSE, TRUE
    nm = "IO::new_async under interference"
    where = next((f["span"] for f in F.fns if f["path"].endswith("::new_async")), "src/datatypes/io.rs")
    r, err = summary(F, "c13::future_io_shared", interfere=True)
    if r is None:
        yield dict(name=nm, status="undecided", where="", why=str(err), fns=[], sites=0); return
    v, env, ev = r
    q = getattr(ev, "acq", []); fns = locals_of(ev, None)
    fin = [env.get((a.fid, 0)) or a.m for a in q]
    ps = paths([v, env["panic"], env["trace"]])
    if ps is None or ev.flags or (not q and not getattr(ev, "reads", [])):
        yield dict(name=nm, status="undecided", where=where, why="the summary is not in the recognised form", fns=fns, sites=ev.sites); return
    # the shared state is (future slot, result slot); free lock => (present, unset) or (taken, set)
    slots = {a.m for a in q}; reads = set(getattr(ev, "reads", []))
    bad = []; und = []; n = 0
    for cond, (R, pn, tr) in ps:
        n += 1
        cs = "; ".join("%s is %s" % (show(s.a[0]) if s.op == "discr" else show(s), {0: "empty", 1: "full"}.get(k, k)) for s, k in cond.items())
        es = events(tr)
        if es is None or any(s.op != "discr" or s.a[0] not in slots | reads for s in cond):
            und.append("decisions or calls outside the protocol when " + cs); continue
        if any(e[0] == "deadlock" for e in es): bad.append("the lock is taken again while it is held when " + cs); continue
        taken = [a for a in q if cond.get(discr(a.m)) == 1]
        calls_ = [i for i, e in enumerate(es) if e[0] == "call"]
        sets = [i for i, e in enumerate(es) if e[0] == "set"]
        rel = {int(e[1][0].a[1]): i for i, e in enumerate(es) if e[0] == "release"}
        if pn is TRUE:
            # excluded by the invariant only if the future had been taken and the result is then missing
            gone = [a for a in q if cond.get(discr(a.m)) == 0]
            last = [o for o in reads if cond.get(discr(o)) == 0]
            if gone and last: continue
            bad.append("a run panics when " + (cs or "always")); continue
        if not taken:
            if calls_: bad.append("the future is run although it was not taken from the shared slot when " + cs)
            if not any(R is proj(1, 0, o) for o in reads): bad.append("a run that does not own the future returns %s instead of the stored result when %s" % (show(R), cs))
            continue
        if len(calls_) != 1: bad.append("the future is run %d times when %s" % (len(calls_), cs)); continue
        if not sets: bad.append("the result of the future is not stored when " + cs); continue
        if es[sets[0]][1][0] is not R: bad.append("the stored result is not the returned one when " + cs)
        for a in taken:
            began = [i for i, e in enumerate(es) if e[0] == "init" and i < calls_[0]]   # get_or_init excludes other initialisers
            if rel.get(a.n, 1 << 30) < sets[0] and not began:
                bad.append("the lock is released after the future was taken and before its result is stored: a concurrent run finds neither the future nor the result")
    if und and not bad: yield dict(name=nm, status="undecided", where=where, why="; ".join(und[:3]), fns=fns, sites=ev.sites)
    else: yield ob(nm, [(where, b) for b in bad], "%d paths, %d lock acquisitions, %d reads of the result cell, the shared state being arbitrary at each" % (n, len(q), len(reads)), where, fns=fns, sites=ev.sites)

# ---------------------------------------------------------------- C29: panics of the public functions
def rule_C29(F):
    import panics
    yield from panics.obligations(F.out)
