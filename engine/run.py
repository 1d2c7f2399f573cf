#!/usr/bin/env python3
"""run.py CNN [--tier quick|thorough] : decide property CNN on /repo's working tree.

exit 0  every obligation that could be decided holds (or is a recorded finding)
exit 1  VIOLATION property=CNN replay=<report>
"""
import sys, os, json, re, time, hashlib, subprocess, fcntl, shutil, threading, multiprocessing as mp
HERE = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(HERE)
sys.path.insert(0, HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", V + "/.build")
EVD = os.environ.get("VERIF_EVIDENCE", V + "/evidence")
LAWTIME = 60
SHAPETIME = 30

def files(d, ext):
    for r, ds, fs in os.walk(d):
        ds[:] = sorted(x for x in ds if x not in ("target", ".git", "__pycache__"))
        for f in sorted(fs):
            if f.endswith(ext): yield os.path.join(r, f)
def hash_files(fs):
    h = hashlib.sha256()
    for f in fs:
        h.update(f.encode() + b"\0"); h.update(open(f, "rb").read()); h.update(b"\0")
    return h.hexdigest()[:20]

def env_():
    e = dict(os.environ)
    e.update(HOME="/root", RUSTUP_TOOLCHAIN="nightly", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", CARGO_INCREMENTAL="0", RUSTC_WRAPPER="")
    e["PATH"] = "/usr/local/bin:/root/.cargo/bin:" + e.get("PATH", "")
    e.pop("RUSTFLAGS", None)
    e["LD_LIBRARY_PATH"] = subprocess.run(["rustc", "--print", "sysroot"], env=e, capture_output=True, text=True).stdout.strip() + "/lib"
    return e

def build_driver(e):
    fs = list(files(V + "/driver/src", ".rs")) + [V + "/driver/Cargo.toml"]
    stamp = BUILD + "/driver.stamp"; k = hash_files(fs)
    drv = BUILD + "/driver/release/vdriver"
    if os.path.exists(drv) and os.path.exists(stamp) and open(stamp).read() == k: return drv
    e = dict(e); e["CARGO_TARGET_DIR"] = BUILD + "/driver"
    r = subprocess.run(["cargo", "build", "--release", "--offline", "-q"], cwd=V + "/driver", env=e, capture_output=True, text=True)
    if r.returncode: raise SystemExit2("driver build failed:\n" + r.stderr[-4000:])
    open(stamp, "w").write(k)
    return drv
class SystemExit2(Exception): pass

def spec_mods(pid):
    """the property's own specification, and the ones it borrows laws from"""
    n = pid.lower()
    return list(dict.fromkeys([n] + [m for m, _ in also(pid)])) if os.path.exists("%s/spec/%s.rs" % (V, n)) else []
def also(pid):
    """lines `//@also cNN: regex` of a specification: laws of another one that count here too"""
    return [(m, re.compile(x.strip() + r"\Z")) for m, x in re.findall(r"^//@also (\w+): *(.*)$", open("%s/spec/%s.rs" % (V, pid.lower())).read(), re.M)]

def shapes(m):
    """lines `//@at regex: lengths; lengths : numbers; numbers` of a specification: shapes at which the
    laws are also (with `=`, only) decided"""
    p = "%s/spec/%s.rs" % (V, m)
    if not os.path.exists(p): return []
    r = []
    for x in re.findall(r"^//@at (.*)$", open(p).read(), re.M):
        rx, ws, ns = x.split(" : ")
        t = lambda s: [tuple(int(y) for y in z.split(",")) for z in s.split()]
        r.append((re.compile(rx.strip("= ") + r"\Z"), "shapes" if rx.startswith("=") else "general", [(a, b) for a in t(ws) for b in t(ns)]))
    return r
def write_spec(out, mods, drop):
    s = open(V + "/spec/macros.rs").read()
    s += '#[path = "%s/spec/refs.rs"] pub mod refs;\n' % V
    for m in mods:
        p = "%s/spec/%s.rs" % (V, m)
        if drop.get(m):
            src = open(p).read().split("\n")
            for a, b in drop[m]:
                for i in range(a, b + 1): src[i - 1] = ""
            p = out + "/spec_%s.rs" % m
            open(p, "w").write("\n".join(src))
        s += '#[path = "%s"] pub mod %s;\n' % (p, m)
    open(out + "/spec.rs", "w").write(s)
    return out + "/spec.rs"

def items_of(path):
    """line ranges of the top-level items of a spec file"""
    out = []; depth = 0; start = None
    ls = open(path).read().split("\n")
    for i, l in enumerate(ls, 1):
        if start is None and l.strip(): start = i
        q = re.sub(r'"(\\.|[^"\\])*"|\'(\\.|[^\'\\])\'|//.*', "", l)
        depth += sum(q.count(c) for c in "{([") - sum(q.count(c) for c in "})]")
        if depth <= 0 and start is not None and l.strip():
            if i > start and ls[start - 1].startswith("pub mod"):
                # the one-line items inside a module come first
                out += [(j, j) for j in range(start + 1, i) if ls[j - 1].strip() and not ls[j - 1].startswith(("use ", "pub use"))]
            out.append((start, i)); start = None
    return out

def scan(pid):
    """-> (dir, log of dropped spec items)"""
    mods = spec_mods(pid)
    fs = list(files(REPO + "/src", ".rs")) + [REPO + "/Cargo.toml"] + ([REPO + "/Cargo.lock"] if os.path.exists(REPO + "/Cargo.lock") else [])
    fs += list(files(V + "/driver/src", ".rs")) + [V + "/spec/macros.rs", V + "/spec/refs.rs"] + ["%s/spec/%s.rs" % (V, m) for m in mods]
    if os.path.exists(V + "/spec/%s.json" % pid.lower()): fs.append(V + "/spec/%s.json" % pid.lower())
    import rules
    key = hash_files(fs) + ("f" if hasattr(rules, "rule_" + pid) else "")
    out = "%s/scan-%s" % (BUILD, pid)
    os.makedirs(BUILD, exist_ok=True)
    e = env_()
    lk = open(BUILD + "/lock", "w"); fcntl.flock(lk, fcntl.LOCK_EX)
    try:
        if os.path.exists(out + "/key") and open(out + "/key").read() == key:
            return out, json.load(open(out + "/dropped.json")), key
        drv = build_driver(e)
        shutil.rmtree(out, ignore_errors=True); os.makedirs(out)
        dropped = []; drop = {}
        if hasattr(rules, "rule_" + pid): e["VERIF_ROOTS" if pid == "C29" else "VERIF_FACTS"] = "1"
        e["CARGO_TARGET_DIR"] = BUILD + "/target"; e["RUSTC_WORKSPACE_WRAPPER"] = drv; e["VERIF_OUT"] = out
        for rnd in range(12):
            sp = write_spec(out, mods, drop)
            e["VERIF_SPEC"] = sp
            # cargo must call the compiler again
            shutil.rmtree(BUILD + "/target/debug/build/rustica", ignore_errors=True)
            d = BUILD + "/target/debug/.fingerprint"
            if os.path.isdir(d):
                for x in os.listdir(d):
                    if x.startswith("rustica-"): shutil.rmtree(d + "/" + x, ignore_errors=True)
            r = subprocess.run(["cargo", "check", "-q", "--features", "full", "--lib", "--offline", "--manifest-path", REPO + "/Cargo.toml"], env=e, capture_output=True, text=True, cwd=REPO)
            open(out + "/cargo%d.log" % rnd, "w").write(r.stderr)
            if r.returncode == 0 and os.path.exists(out + "/index.json"): break
            # which spec items do not compile against this tree?
            hit = False; old = {m: list(drop.get(m, [])) for m in mods}
            # the places of the errors themselves, not of the notes that name a bound's definition
            ers = "\n".join(re.split(r"\n(?=note: |help: )", x)[0] for x in re.split(r"\n(?=error|warning)", "\n" + r.stderr) if x.startswith("error"))
            for text, m in [(ers, m) for m in mods] + [(r.stderr, m) for m in mods]:
                if hit and text is r.stderr: break
                its = items_of("%s/spec/%s.rs" % (V, m))
                for ln in re.findall(r"(?:^|[\s/])(?:spec_)?%s\.rs:(\d+):" % m, text):
                    ln = int(ln)
                    for a, b in its:
                        if a <= ln <= b and (a, b) not in old[m] and not open("%s/spec/%s.rs" % (V, m)).read().split("\n")[a - 1].startswith(("use ", "macro_rules", "pub use", "#[path")):
                            if (a, b) not in drop.setdefault(m, []): drop[m].append((a, b)); dropped.append([m, a, b])
                            hit = True; break
            if not hit:
                raise SystemExit2("the tree does not compile with the specification:\n" + "\n".join(re.findall(r"^error.*(?:\n.*){0,8}", r.stderr, re.M)[:4]))
        else: raise SystemExit2("the specification does not compile against this tree")
        json.dump(dropped, open(out + "/dropped.json", "w"))
        open(out + "/key", "w").write(key)
        return out, dropped, key
    finally:
        fcntl.flock(lk, fcntl.LOCK_UN); lk.close()

# ---------------------------------------------------------------- laws
def law_worker(job):
    out, name, lf, rf, flow, mode, combos = job
    import signal
    from terms import sys as _s
    import eval as EV, models, compare, check, terms
    res = {}
    def main():
        t0 = time.time()
        try:
            EV.PROGS.clear()
            r, c, ev, l, rr = check.check_pair(EV.Prog(lf), EV.Prog(rf), flow=flow, combos=combos, only_shapes=mode == "shapes", limit=SHAPETIME)
            st = {True: "held", False: "violated", None: "undecided"}[r]
            res["bounded"] = c.bounded if c is not None else 0
            if r is None: res["general"] = str(c.general) if c is not None else "budget"
            res.update(status=st, sites=ev.sites, fns=list(ev.analysed), flags=sorted(ev.flags), unknown=sorted(ev.unknown)[:6])
            if st == "violated" and c.reasons:
                a, b, m = c.reasons[0]
                res["diff"] = [terms.show(a)[:1500], terms.show(b)[:1500], {terms.show(k)[:300]: str(v) for k, v in m.items()}]
                res["sides"] = [terms.show(l[0])[:2500], terms.show(rr[0])[:2500]]
                if getattr(c, "inst", None): res["diff"][2].update({terms.show(g)[:200]: terms.show(w)[:200] for g, w in c.inst})
                if flow: res["traces"] = [terms.show(l[1]["trace"])[:1500], terms.show(rr[1]["trace"])[:1500]]
                res["panics"] = [terms.show(l[1]["panic"])[:600], terms.show(rr[1]["panic"])[:600]]
            elif st == "violated": res["status"] = "undecided"; res["flags"].append("no-witness")
        except RecursionError: res.update(status="undecided", flags=["recursion"], sites=0, fns=[], unknown=[])
        except MemoryError: res.update(status="undecided", flags=["memory"], sites=0, fns=[], unknown=[])
        except Exception as x:
            import traceback
            res.update(status="undecided", flags=["error:%s:%s" % (type(x).__name__, str(x)[:100])], sites=0, fns=[], unknown=[], tb=traceback.format_exc()[-800:])
        res["t"] = time.time() - t0
    threading.stack_size(512 * 1024 * 1024)
    signal.alarm(LAWTIME)   # default action ends the worker
    t = threading.Thread(target=main); t.start(); t.join()
    signal.alarm(0)
    res["name"] = name
    return res

def run_jobs(jobs, nproc=8):
    """one forked worker per batch, so that a stuck law costs only itself"""
    todo = list(jobs); results = {}
    live = {}
    ctx = mp.get_context("fork")
    def spawn(job):
        rd, wr = ctx.Pipe(False)
        def go():
            rd.close()
            import resource
            resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
            for j in job:
                wr.send(law_worker(j))
            wr.send(None)
        p = ctx.Process(target=go); p.start(); wr.close()
        return p, rd
    # batches of laws, ordered; a dead batch is resumed after the offending law
    n = max(1, min(12, len(todo) // (nproc * 3) + 1))
    batches = [todo[i:i + n] for i in range(0, len(todo), n)]
    from multiprocessing.connection import wait
    while batches or live:
        while batches and len(live) < nproc:
            b = batches.pop(0); p, rd = spawn(b); live[rd] = (p, b, 0)
        for rd in wait(list(live)):
            p, b, k = live[rd]
            try: r = rd.recv()
            except EOFError: r = "dead"
            if r is None:
                p.join(); del live[rd]; continue
            if r == "dead":
                p.join(); del live[rd]
                if b[k][5] == "general":
                    # no answer in general: at parameters of bounded shape
                    j = list(b[k]); j[5] = "shapes"
                    batches.insert(0, [tuple(j)] + b[k + 1:]); continue
                results[b[k][1]] = {"name": b[k][1], "status": "undecided", "flags": ["timeout"], "sites": 0, "fns": [], "unknown": [], "t": LAWTIME}
                if b[k + 1:]: batches.insert(0, b[k + 1:])
                continue
            results[r["name"]] = r; live[rd] = (p, b, k + 1)
    return [results[j[1]] for j in jobs if j[1] in results]

def laws(out, pid):
    more = also(pid)
    idx = {e["path"]: e for e in json.load(open(out + "/index.json"))}
    jobs = []; at = {}
    for p in sorted(idx):
        nm = p.rsplit("::", 1)[-1]
        if nm not in ("l", "vl"): continue
        base = p.rsplit("::", 1)[0]; rn = base + "::" + nm[:-1] + "r"
        if rn not in idx: continue
        name = base.split("verif_spec::", 1)[-1]
        m, _, rest = name.partition("::")
        if m != pid.lower() and not any(m == a and x.match(rest) for a, x in more): continue
        if m not in at: at[m] = shapes(m)
        mode, combos = next(((k, c) for x, k, c in at[m] if x.match(rest)), ("general", None))
        jobs.append((out, name, out + "/" + idx[p]["file"], out + "/" + idx[rn]["file"], nm == "l", mode, combos))
    return jobs, idx

def crate_fns(out, jobs):
    """path -> span of the crate's own functions reachable from the obligations"""
    spans = {}
    for _, _, a, b, *_ in jobs:
        for f in (a, b):
            for x in json.load(open(f))["bodies"]:
                if x and x.get("local") and x.get("span"): spans[x["path"]] = x["span"]
    return spans

def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv: tier = sys.argv[sys.argv.index("--tier") + 1]
    if tier not in ("quick", "thorough"): tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    learn = "--learn" in sys.argv
    t0 = time.time()
    os.makedirs(EVD, exist_ok=True)
    rep_path = EVD + "/%s.report.txt" % pid
    report = []; viol = []; known = []; notes = []
    findings = json.load(open(V + "/known_findings.json"))["known"] if os.path.exists(V + "/known_findings.json") else []
    expected_path = V + "/spec/expected.json"
    expected = json.load(open(expected_path)) if os.path.exists(expected_path) else {}
    cov = {}
    try:
        out, dropped, key = scan(pid)
        jobs, idx = laws(out, pid)
        rs = run_jobs(jobs)
        spans = crate_fns(out, jobs)
    except SystemExit2 as x:
        # no verdict is possible; nothing is claimed about this tree
        print("UNDECIDED property=%s: %s" % (pid, str(x)[:2000]))
        jobs, rs, spans, dropped, key = [], [], {}, [], ""
        notes.append(str(x)[:1000])
        out = None
    held = [r for r in rs if r["status"] == "held"]; und = [r for r in rs if r["status"] == "undecided"]
    for r in rs:
        if r["status"] != "violated": continue
        fnd = None
        for k in findings:
            if k.get("property") == pid and k.get("law") == r["name"]:
                if not k.get("diff") or k["diff"] == r["diff"][:2]: fnd = k
        where = ["%s  (%s)" % (spans[f], f) for f in r["fns"] if f in spans and "verif_spec" not in f and "/src/" in spans[f] + "/src/"]
        txt = ["obligation %s" % r["name"],
               "  functions analysed in the code under test:"] + ["    " + w for w in where[:20]]
        if "diff" in r:
            txt += ["  the two sides differ at:", "    code:      " + r["diff"][0], "    reference: " + r["diff"][1]]
            if r["diff"][2]: txt += ["    when: " + "; ".join("%s = %s" % kv for kv in r["diff"][2].items())]
            txt += ["  whole flow, code:      " + r["sides"][0], "  whole flow, reference: " + r["sides"][1]]
            if r.get("traces") and r["traces"][0] != r["traces"][1]: txt += ["  calls, code:      " + r["traces"][0], "  calls, reference: " + r["traces"][1]]
            if r["panics"] != ["False", "False"]: txt += ["  panics when, code: " + r["panics"][0], "  panics when, reference: " + r["panics"][1]]
        if fnd: known.append(fnd); report += ["KNOWN FINDING"] + txt + [""]
        else: viol.append((r["name"], where[0] if where else "?")); report += ["VIOLATION"] + txt + [""]
    # facts rules
    import rules
    rules_done = []
    if out is not None:
        fn = getattr(rules, "rule_" + pid, None)
        if fn:
                facts = rules.load(out)
                for ob in fn(facts):
                    rules_done.append(ob)
                    if ob["status"] == "violated":
                        f = [k for k in findings if k.get("property") == pid and k.get("rule") == ob["name"] and ("cond" not in k or set(ob.get("keys", ())) <= set(k["cond"]))]
                        (known.append(f[0]) if f else viol.append((ob["name"], ob["where"])))
                        report += ["KNOWN FINDING" if f else "VIOLATION", "rule %s" % ob["name"], "  at %s" % ob["where"], "  " + ob["why"], ""]
    exp = expected.get(pid, [])
    names = {r["name"] for r in rs} | {o["name"] for o in rules_done}
    missing = [n for n in exp if n not in names]
    lost = [r["name"] for r in und if r["name"] in exp]
    if learn:
        expected[pid] = sorted([r["name"] for r in held] + [o["name"] for o in rules_done if o["status"] == "held"])
        json.dump(expected, open(expected_path, "w"), indent=0, sort_keys=True)
    fns = sorted({f for r in rs for f in r["fns"] if f in spans and "verif_spec" not in f} | {f for o in rules_done for f in o.get("fns", [])})
    nob = len(rs) + len(rules_done)
    und_rules = [o for o in rules_done if o["status"] == "undecided"]
    disch = len(held) + len([o for o in rules_done if o["status"] == "held"])
    cov = {
        "explanation": "Static value-flow comparison on the type-resolved MIR of /repo's current sources: each obligation is an operation of the public API against its reference flow (or the two sides of a law); the rule is that both have the same normal form, call trace and panic gate for all inputs. %d obligations, %d discharged, %d undecided, %d violated." % (nob, disch, len(und) + len(und_rules), len(viol) + len(known)),
        "obligations": nob, "discharged": disch,
        "discharged_at_instances_only": [r["name"] for r in held if r.get("bounded")],
        "instances": sum(r.get("bounded", 0) for r in held),
        "undecided": [r["name"] + ": " + ",".join(r["flags"] + r["unknown"]) for r in und][:80] + [o["name"] for o in und_rules][:40],
        "expected_but_missing": missing[:40], "expected_but_undecided": lost[:40],
        "dropped_spec_items": dropped,
        "crate_functions_analysed": len(fns), "call_sites": sum(r["sites"] for r in rs) + sum(o.get("sites", 0) for o in rules_done),
        "functions": fns[:400],
        "samples": [r["name"] for r in held[:6]] + [o["name"] + ": " + o["why"][:200] for o in rules_done[:6]],
        "rules": sorted({o["name"].split(" ")[0] for o in rules_done}),
        "tree_key": key, "notes": notes,
    }
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "other", "coverage": cov,
          "assumptions": ["std, smallvec, tokio and quickcheck operations behave as modelled in engine/models.py", "Clone of a type parameter yields an equal value", "user callbacks are functions of their arguments (calls are compared as a trace where the law says so)", "arithmetic does not overflow"],
          "wall_s": round(time.time() - t0, 2), "violations": len(viol)}
    json.dump(ev, open(EVD + "/%s.json" % pid, "w"), indent=1)
    open(rep_path, "w").write("\n".join(report) + "\n")
    seen = set()
    for k in known:
        kid = k.get("law") or k.get("rule")
        if kid in seen: continue
        seen.add(kid)
        print("KNOWN-FINDING: property=%s %s: %s" % (pid, kid, k["what"]))
    print("%s: %d obligations, %d held (%d at bounded instances only), %d undecided, %d violated, %d known findings, %d crate functions, %.1fs" % (pid, nob, disch, len([r for r in held if r.get('bounded')]), len(und) + len(und_rules), len(viol), len(seen), len(fns), time.time() - t0))
    if missing or lost: print("  note: %d expected obligations missing, %d no longer decided" % (len(missing), len(lost)))
    if "--slow" in sys.argv:
        for r in sorted(rs, key=lambda r: -r["t"])[:25]: print("  %6.1fs %s %s" % (r["t"], r["name"], r["flags"]))
    if "-v" in sys.argv:
        for r in und: print("  undecided", r["name"], r.get("general"), r["flags"], r["unknown"], r.get("tb", "")[-300:])
        for o in und_rules: print("  undecided", o["name"], o["why"])
        print("\n".join(report)[:int(os.environ.get("VERIF_CHARS", "6000"))])
    if viol:
        for n, w in viol[:20]: print("  broken: %s  at %s" % (n, w))
        print("VIOLATION property=%s replay=%s" % (pid, rep_path))
        return 1
    return 0

if __name__ == "__main__":
    try: rc = main()
    except Exception:
        import traceback
        traceback.print_exc()
        print("UNDECIDED property=%s: internal error, nothing decided" % (sys.argv[1] if len(sys.argv) > 1 else "?"))
        rc = 0
    sys.stdout.flush()
    os._exit(rc)
