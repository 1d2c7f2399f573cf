"""C29: under which conditions can a public function of the crate panic?

Every public function (and every closure, iterator step or future it returns) is summarised with opaque
arguments; its panic condition is a decision tree over facts about the inputs. A branch that panics and
whose facts are consistent is a violation, unless the function is one of the documented partial ones."""
import json, os, re, sys, signal, pickle, threading
from concurrent.futures import ThreadPoolExecutor

# operations that exist to be partial (documented, or named after a documented partial operation); for these the
# laws of spec/c29.rs say exactly when they may panic
PARTIAL = [
    r"<(std::option::Option|std::result::Result|datatypes::(choice::Choice|either::Either|maybe::Maybe|validated::core::Validated)|pvec::core::PersistentVector|datatypes::wrapper::(first::First|last::Last))<.*> as traits::identity::Identity>::(value|into_value)",
    r".*<impl traits::identity::Identity for (datatypes::validated::core::Validated|pvec::core::PersistentVector)<.*>>::(value|into_value)",
    r"traits::semigroup::SemigroupExt::combine_all_owned",
    r"pvec::core::PersistentVector::<T>::(update|chunk)", r"<pvec::core::PersistentVector<T> as std::ops::Index<usize>>::index",
    r"datatypes::choice::Choice::<T>::(remove_alternative|flatten|flatten_sorted|swap_with_alternative)",
    r"datatypes::either::Either::<L, R>::(unwrap_left|unwrap_right|unwrap|left_value|right_value|left_ref|right_ref|left_mut|right_mut)",
    r"datatypes::maybe::Maybe::<T>::unwrap", r"datatypes::validated::core::Validated::<E, A>::(unwrap_owned|unwrap_invalid_owned|invalid_vec|combine_errors|combine_errors_owned|unwrap|unwrap_invalid|expect|expect_invalid)",
    r"<datatypes::wrapper::(first::First|last::Last)<T> as std::convert::AsRef<\w+>>::as_ref", r".*<impl std::convert::AsRef<\w+> for datatypes::validated::core::Validated<.*>>::as_ref", r"datatypes::wrapper::(first|last)::(First|Last)::<T>::unwrap",
    r"transformers::state_t::StateT::<S, M, A>::combine_with",
]
PARTIAL = re.compile("(?:" + "|".join(PARTIAL) + r")\Z")
# operations of std outside the model that do not panic of themselves
QUIET = re.compile(r"std::rt::panic_fmt|core::panicking::.*|std::fmt::Formatter::<'a>::.*|<\(dyn std::any::Any.*|quickcheck::Arbitrary::.*|std::slice::<impl \[T\]>::join|core::num::<impl \w+>::saturating_\w+|std::thread::sleep|std::fmt::\w+::.*")

def analyse(path, derived):
    import terms, models, check, compare
    from terms import FALSE, TRUE, lit, cmp as cmpt, sym, fresh, show, kids, keyof, discr, length
    from eval import Ev, Prog, gate_key
    from rules import paths
    ev = Ev(); p = Prog(path); ev.checked = True
    body = p.bodies[0]
    v, env = check.summarise(p, ev)
    conds = [("", env["panic"], {})]
    # what it hands out to be run later
    todo = [(v, 0, {})]; seen = set(); n = 0
    while todo and n < 60:
        x, d, g = todo.pop()
        if (x.id, len(g)) in seen or d > 3: continue
        seen.add((x.id, len(g)))
        if x.op == "case":
            for k, y in x.a[1]: todo.append((y, d, {**g, x.a[0]: gate_key(x, k)}))
        elif x.op in ("con", "upd", "mref"):
            if x.op == "mref": todo.append((ev.deref(x, env), d, g)); continue
            for k in kids(x): todo.append((k, d, g))
        elif x.op in ("clo", "fndef", "cor"):
            try:
                e0 = {"trace": terms.NIL, "panic": FALSE}
                for k, w in env.items():
                    if k not in e0: e0[k] = w
                if x.op == "cor":
                    from models import await_
                    v2, e2 = await_(ev, x, e0, dict(g))
                elif x.op == "clo":
                    q = terms.PROGS[x.a[0]] if hasattr(terms, "PROGS") else check.PROGS[x.a[0]]
                    b = q.bodies[x.a[1]]; args = []
                    for i in range(b["nargs"] - 1):
                        t = q.types[b["locals"][2 + i]]
                        a = fresh("later")
                        args.append(ev.slot(e0, a) if t["k"] == "ref" and t["mut"] else a)
                    v2, e2 = ev.apply(x, args, e0, dict(g))
                else: continue
                n += 1
                conds.append(("when what it returns is run, ", e2["panic"], g))
                todo.append((v2, d + 1, g))
            except check.Budget: raise
    # numbers that cannot be negative
    names = dict((l, nm) for l, nm in body["names"])
    nat = []
    for j in range(1, body["nargs"] + 1):
        t = p.types[body["locals"][j]]
        while t["k"] == "ref": t = p.types[t["t"]]
        if t["k"] == "int" and str(t.get("s", "")).startswith("u"): nat.append(sym(names.get(j, "p%d" % j)))
    tys = {}
    for j in range(1, body["nargs"] + 1):
        t = p.types[body["locals"][j]]
        while t["k"] == "ref": t = p.types[t["t"]]
        tys[names.get(j, "p%d" % j)] = t.get("path", "") if t["k"] == "adt" else ""
    def private(s):
        """a decision about the bookkeeping of a vector: its invariants exclude the bad cases (property C25)"""
        def go(x):
            if x.op == "proj" and x.a[2].op == "sym" and tys.get(x.a[2].a[0], "").startswith("pvec::"): return True
            return any(go(k) for k in kids(x))
        return s.op == "cmp" and go(s)
    def stateful(s):
        """is this the decision whether a StateT is a bare value?"""
        if s.op != "discr": return False
        x = s.a[0]
        if x.op == "sym": return tys.get(x.a[0], "").endswith("state_t::StateT")
        if x.op == "proj" and x.a[:2] == (0, 0):
            return x.a[2].op == "app" and "/state" in body["span"] or x.a[2].op == "sym" and tys.get(x.a[2].a[0], "").endswith("state::State")
        return False
    def pos(t):
        for j in range(1, body["nargs"] + 1): t = re.sub(r"(?<![\w#])%s(?!\w)" % re.escape(names.get(j, "p%d" % j)), "#%d" % j, t)
        return t
    bad = []; und = []; keys = []
    for when, pn, g in conds:
        if pn is FALSE: continue
        ps = paths([pn])
        if ps is None: und.append("too many cases"); continue
        for cond, (x,) in ps:
            if x is FALSE or x.op == "bot": continue
            if any(k in g and g[k] != q and not isinstance(g[k], tuple) for k, q in cond.items()): continue
            cond = {**g, **cond}
            m = dict(cond)
            for s in nat:
                f = cmpt(s, lit(0))
                if f.op == "cmp" and f not in m: m[f] = ("x", frozenset([-1]))
                elif f.op == "cmp" and m[f] == -1: m = None; break
            if m is None: continue
            # a StateT made from a bare value has no base monad to run in
            if any(k == 0 and stateful(s) for s, k in cond.items()): continue
            c = compare.consistent(m)
            if c is False: continue
            if any(private(s) for s in cond): continue
            text = when + ("; ".join("%s is %s" % (show(s), k) for s, k in cond.items()) or "always")
            if x is not TRUE: und.append("unsettled panic " + text); continue
            if c is None or not all(s.rig for s in cond) or any(compare.derived(s) for s in cond): und.append("perhaps " + text); continue
            bad.append(text); keys.append(when + "; ".join(sorted(pos("%s is %s" % (show(s), k)) for s, k in cond.items())))
    unk = [u for u in ev.unknown if not QUIET.match(u.split("@")[0])]
    if bad and any(f.startswith(check.IMPRECISE) for f in ev.flags): und += bad; bad = []
    return dict(bad=bad, keys=keys, und=und, unk=unk, fns=sorted(x for x in ev.analysed), sites=ev.sites, conds=len(conds))

def work(job):
    e, path = job
    r, w = os.pipe(); pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            import resource; resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
            signal.signal(signal.SIGALRM, signal.SIG_DFL); signal.alarm(40)
            sys.setrecursionlimit(200000)
            out = {}
            def main():
                try: out.update(analyse(path, e.get("derived")))
                except BaseException as x: out["err"] = "%s %s" % (type(x).__name__, str(x)[:100])
            threading.stack_size(512 << 20)
            t = threading.Thread(target=main); t.start(); t.join()
            with os.fdopen(w, "wb") as f: f.write(pickle.dumps(out))
        finally: os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as f: d = f.read()
    os.waitpid(pid, 0)
    try: return pickle.loads(d)
    except Exception: return {"err": "time or memory ran out"}

def obligations(out):
    from multiprocessing import get_context
    idx = [e for e in json.load(open(out + "/index.json")) if e.get("api")]
    with get_context("fork").Pool(8) as pool: res = pool.map(work, [(e, out + "/" + e["file"]) for e in idx], chunksize=4)
    seen = {}
    for e, r in zip(idx, res):
        k = seen[e["path"]] = seen.get(e["path"], 0) + 1
        nm = "no panic: " + e["path"] + (" (%d)" % k if k > 1 else "")
        fns = r.get("fns", []); sites = r.get("sites", 0)
        if PARTIAL.match(e["path"]): continue
        if "err" in r: yield dict(name=nm, status="undecided", where=e["span"], why=r["err"], fns=[], sites=0)
        elif r["bad"]: yield dict(name=nm, status="violated", where=e["span"], why=("%s panics: %s" % (e["path"], " | ".join(r["bad"][:4])))[:1500], keys=r["keys"], fns=fns, sites=sites)
        elif r["und"] or r["unk"]: yield dict(name=nm, status="undecided", where=e["span"], why="; ".join(r["und"][:3] + r["unk"][:3])[:600], fns=fns, sites=sites)
        else: yield dict(name=nm, status="held", where=e["span"], why="no panic in any case, %d summaries" % r["conds"], fns=fns, sites=sites)
