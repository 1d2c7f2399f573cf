#!/usr/bin/env python3
"""evalmut.py SURVIVORS.jsonl OUT.jsonl [FROM [TO]] : which checks report each mutant that the tests do not."""
import json, os, re, subprocess, sys, shutil, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.environ.get("EVALMUT_DIR", "/tmp/em")
def index():
    """file -> [(line of a body, property)]"""
    r = {}
    for d in glob.glob(V + "/.build/scan-C*"):
        pid = d.split("scan-")[1]; seen = set()
        for f in glob.glob(d + "/*.json"):
            if os.path.basename(f) in ("index.json", "dropped.json", "facts.json"): continue
            try: bs = json.load(open(f))["bodies"]
            except Exception: continue
            for b in bs:
                if b and b.get("span") and b.get("local") and b["span"].startswith("src/"): seen.add(b["span"])
        for s in seen:
            f, l = s.split(":")[:2]; r.setdefault(f, []).append((int(l), pid))
    return r
def main():
    ix = index()
    muts = [json.loads(l) for l in open(sys.argv[1])]
    a = int(sys.argv[3]) if len(sys.argv) > 3 else 0; b = int(sys.argv[4]) if len(sys.argv) > 4 else len(muts)
    out = open(sys.argv[2], "a")
    R = S + "/repo"; os.makedirs(R, exist_ok=True)
    for f, line, old, new in muts[a:b]:
        subprocess.run(["rsync", "-a", "--delete", "--exclude", "target", "--exclude", ".git", "/repo/", R + "/"], check=True)
        p = R + "/" + f; ls = open(p).read().split("\n")
        assert ls[line].strip() == old.strip(), (f, line, ls[line], old)
        if new.startswith("\0"): ls[line], ls[line + 1] = ls[line + 1], ls[line]
        else: ls[line] = new
        open(p, "w").write("\n".join(ls))
        starts = sorted({l for l, _ in ix.get(f, []) if l <= line + 1})
        near = starts[-4:]
        props = sorted({q for l, q in ix.get(f, []) if l in near})
        e = dict(os.environ, VERIF_REPO=R, VERIF_BUILD=S + "/build", VERIF_EVIDENCE=S + "/ev")
        hit = []; note = ""
        for q in props:
            r = subprocess.run(["python3", V + "/engine/run.py", q], env=e, capture_output=True, text=True)
            if r.returncode == 1:
                m = re.search(r"broken: (\S+)", r.stdout); hit.append(q + ":" + (m.group(1) if m else "?")); break
            m = re.search(r"(\d+) expected obligations missing, (\d+) no longer", r.stdout)
            if m: note += " %s:missing=%s,lost=%s" % (q, m.group(1), m.group(2))
        out.write(json.dumps([f, line + 1, old.strip(), new.strip("\0").strip() if not new.startswith("\0") else "SWAP", props, hit, note]) + "\n"); out.flush()
main()
