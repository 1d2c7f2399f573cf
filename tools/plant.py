#!/usr/bin/env python3
"""plant.py FILE.py... : confirm planted bugs on a copy of /repo and store them under /verif/seeded.
FILE defines BUGS = [dict(id, prop, edits=[(file, old, new)], demo, needs, breaks)]."""
import sys, os, json, subprocess, shutil, re
V = "/verif"; W = "/tmp/plantwt"
BASE = json.load(open("/opt/vp/BASELINE.json"))
def sh(c, cwd=None, env=None, to=900):
    return subprocess.run(c, shell=True, cwd=cwd, capture_output=True, text=True, env=env, timeout=to)
DEMO = r'''#!/bin/bash
# cwd: the repository under test. Builds demo.rs against it in a scratch directory and runs it.
D=$(cd "$(dirname "$0")" && pwd); R=$PWD
W=$(mktemp -d /tmp/demo.XXXXXXXX) || exit 2
trap 'rm -rf "$W"' EXIT
mkdir "$W/src"; cp "$D/demo.rs" "$W/src/main.rs"; [ -f "$R/Cargo.lock" ] && cp "$R/Cargo.lock" "$W/Cargo.lock"
cat > "$W/Cargo.toml" <<X
[package]
name = "demo"
version = "0.1.0"
edition = "2024"
[dependencies]
rustica = { path = "$R", features = ["full"] }
[workspace]
X
export CARGO_TARGET_DIR="$W/target" CARGO_NET_OFFLINE=true RUSTFLAGS="-Awarnings"
cd "$W" && cargo build -q --offline || exit 3
timeout 60 "$W/target/debug/demo"
'''
def demo(d, repo):
    e = dict(os.environ); e["RUSTFLAGS"] = ""
    # same as demo.sh but with a warm target directory
    w = "/tmp/plantdemo"; os.makedirs(w + "/src", exist_ok=True)
    shutil.copy(d + "/demo.rs", w + "/src/main.rs")
    shutil.copy("/repo/Cargo.lock", w + "/Cargo.lock")
    open(w + "/Cargo.toml", "w").write('[package]\nname="demo"\nversion="0.1.0"\nedition="2024"\n[dependencies]\nrustica={path="%s",features=["full"]}\n[workspace]\n' % repo)
    r = sh("RUSTFLAGS=-Awarnings cargo build -q --offline", cwd=w)
    if r.returncode: return 3, r.stderr[-1500:]
    try: r = sh("timeout 60 ./target/debug/demo", cwd=w)
    except subprocess.TimeoutExpired: return 124, ""
    return r.returncode, (r.stdout + r.stderr)[-300:]
def main():
    if not os.path.isdir(W): sh("cp -a /repo " + W)
    sh("git checkout -q --detach %s && git checkout -q -- ." % sh("git -C /repo rev-parse HEAD").stdout.strip(), cwd=W)
    if sh("git rev-parse HEAD", cwd=W).stdout != sh("git rev-parse HEAD", cwd="/repo").stdout:
        sh("git fetch -q /repo HEAD && git checkout -q --detach FETCH_HEAD", cwd=W)
    for f in sys.argv[1:]:
        if f.startswith("-"): continue
        ns = {}; exec(open(f).read(), ns)
        for b in ns["BUGS"]:
            sh("git checkout -q -- .", cwd=W)
            d = "/tmp/plantout/" + b["id"]; os.makedirs(d, exist_ok=True)
            if os.path.exists(V + "/seeded/" + b["id"]) and "--force" not in sys.argv: print(b["id"], "exists"); continue
            open(d + "/demo.rs", "w").write(b["demo"]); open(d + "/demo.sh", "w").write(DEMO); os.chmod(d + "/demo.sh", 0o755)
            rc0, o0 = demo(d, W)
            if rc0 != 0: print(b["id"], "DEMO FAILS ON BASE", rc0, o0); continue
            bad = False
            for fn, old, new in b["edits"]:
                p = W + "/" + fn; s = open(p).read()
                n = s.count(old)
                if n != 1: print(b["id"], "edit matches", n, "times in", fn); bad = True; break
                open(p, "w").write(s.replace(old, new))
            if bad: continue
            rc1, o1 = demo(d, W)
            if rc1 == 0: print(b["id"], "DEMO PASSES WITH BUG"); continue
            if rc1 == 3: print(b["id"], "DOES NOT BUILD", o1); continue
            r2 = sh("python3 /verif/tools/runtests.py " + W)
            if r2.returncode: print(b["id"], "TESTS FAIL:", r2.stdout[-600:]); continue
            diff = sh("git diff", cwd=W).stdout
            o = V + "/seeded/" + b["id"]; os.makedirs(o, exist_ok=True)
            for x in ("demo.rs", "demo.sh"): shutil.copy(d + "/" + x, o + "/" + x)
            open(o + "/patch.diff", "w").write(diff)
            json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(o + "/meta.json", "w"), indent=1)
            c = sh("VERIF_REPO=%s VERIF_BUILD=/tmp/plantbuild VERIF_EVIDENCE=/tmp/plantev python3 engine/run.py %s" % (W, b["prop"]), cwd=V)
            print(b["id"], "KEPT", b["prop"], "CAUGHT" if c.returncode == 1 else "MISSED", c.stdout.strip().split("\n")[-2:][0][:200])
    sh("git checkout -q -- .", cwd=W)
main()
