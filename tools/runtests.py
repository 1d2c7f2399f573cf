#!/usr/bin/env python3
"""runtests.py DIR : the repository's stable tests on a scratch copy; exit 1 if any fails"""
import sys, os, subprocess
W = sys.argv[1]
e = dict(os.environ, HOME="/root", RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", CARGO_INCREMENTAL="1", CARGO_PROFILE_DEV_DEBUG="line-tables-only", RUSTC_WRAPPER="")
bad = []
for c in (["cargo","test","--workspace","--all-features","--lib","--bins","--tests","--no-fail-fast","--offline","--","--test-threads","8","--skip","test_validated::performance_tests"],
          ["cargo","test","--workspace","--all-features","--doc","--no-fail-fast","--offline","--","--test-threads","8"]):
    r = subprocess.run(c, cwd=W, env=e, capture_output=True, text=True)
    out = r.stdout
    bad += [l for l in out.split("\n") if l.startswith("test ") and l.rstrip().endswith("FAILED")]
    if r.returncode and not bad: bad.append("run failed: " + r.stderr[-800:])
    if bad: break
if bad: print("\n".join(bad[:12])); sys.exit(1)
