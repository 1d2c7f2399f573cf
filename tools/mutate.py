#!/usr/bin/env python3
"""mutate.py DIR N SEED [WORKERS] [-x PATHREGEX]: random source mutants of /repo that build and
pass the repository's stable tests, written to DIR/survivors.jsonl (file, line, old, new).
Works on copies in DIR/w0..; used to look for changes the checks miss."""
import sys, os, re, random, json, subprocess, threading, queue, shutil
HERE = os.path.dirname(os.path.abspath(__file__))
D, N, SEED = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
W = int(sys.argv[4]) if len(sys.argv) > 4 and sys.argv[4].isdigit() else 6
X = sys.argv[sys.argv.index("-x") + 1] if "-x" in sys.argv else r"pvec/"
I = sys.argv[sys.argv.index("-i") + 1] if "-i" in sys.argv else r""
R = "/repo"
SUBS = [(r" == ", " != "), (r" != ", " == "), (r" < ", " <= "), (r" > ", " >= "), (r" <= ", " < "), (r" >= ", " > "), (r" && ", " || "), (r" \|\| ", " && "),
    (r" \+ 1\b", ""), (r" - 1\b", ""), (r"(?<=[\w)]) \+ (?=\w)", " - "), (r"\b0\b", "1"), (r"\b1\b", "0"), (r"\b1\b", "2"),
    (r"\.rev\(\)", ""), (r"\.skip\(1\)", ""), (r"\.iter\(\)", ".iter().rev()"), (r"\.into_iter\(\)", ".into_iter().rev()"), (r"\.iter\(\)", ".iter().skip(1)"), (r"\.into_iter\(\)", ".into_iter().take(1)"),
    (r"\.is_some\(\)", ".is_none()"), (r"\.is_none\(\)", ".is_some()"), (r"\.is_ok\(\)", ".is_err()"), (r"\.is_err\(\)", ".is_ok()"), (r"\.is_empty\(\)", ".len() == 1"),
    (r"\.all\(", ".any("), (r"\.any\(", ".all("), (r"\.min\(", ".max("), (r"\.max\(", ".min("), (r"\.first\(\)", ".last()"), (r"\.last\(\)", ".first()"),
    (r"\.push\(", ".insert(0, "), (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"\bLess\b", "Greater"), (r"\bGreater\b", "Less"),
    (r"\bOk\(", "Err("), (r"Some\([^()]*\)$", "None"), (r"if ([^{]+) \{", r"if !(\1) {"), (r"\bLeft\b", "Right"), (r"\bRight\b", "Left"),
    (r"fold\(", "rfold("), (r"\.chain\(([^()]*)\)", ""), (r"\.unwrap_or_default\(\)", ".unwrap()"), (r"\.or_else\(\|\| (.*)\)$", r".or(\1)"),
    (r"\.filter\((.*)\)", r".filter(|_| true)"), (r"\.cloned\(\)", ".cloned().take(2)"), (r"entry\(", "entry("), (r"\bif let Some", "while let Some"),
    (r"\.clone\(\)\.(combine|append|concat)", r".clone().clone().\1")]
def pairs(l):
    out = []
    for m in re.finditer(r"\(((?:[\w&.*]|\(\))+), ((?:[\w&.*]|\(\))+)\)", l):
        out.append(l[:m.start()] + "(%s, %s)" % (m.group(2), m.group(1)) + l[m.end():])
    ids = [m for m in re.finditer(r"(?<![\w.:'])[a-z_]\w*(?![\w(!:]|\s*=>)", l)]
    kw = {"let", "mut", "if", "else", "match", "for", "in", "self", "return", "move", "fn", "while", "ref", "as", "where", "impl", "pub", "use", "dyn"}
    ids = [m for m in ids if m.group(0) not in kw or m.group(0) == "self"]
    names = sorted({m.group(0) for m in ids})
    for m in ids:
        for n in names:
            if n != m.group(0): out.append(l[:m.start()] + n + l[m.end():])
    # receiver/argument: a.f(b) -> b.f(a)
    for m in re.finditer(r"\b(\w+)\.(\w+)\((&?)(\w+)\)", l):
        out.append(l[:m.start()] + "%s.%s(%s%s)" % (m.group(4), m.group(2), m.group(3), m.group(1)) + l[m.end():])
    return out
def mutants():
    out = []
    for r, ds, fs in os.walk(R + "/src"):
        for f in sorted(fs):
            p = os.path.join(r, f); rel = os.path.relpath(p, R)
            if not f.endswith(".rs") or re.search(X, rel) or not re.search(I, rel): continue
            L = open(p).read().split("\n"); infn = False
            for i, l in enumerate(L):
                s = l.strip()
                if s.startswith("#[cfg(test)]"): break
                if not s or s.startswith(("//", "#", "use ", "pub use", "mod ", "pub mod", "impl", "type ", "pub struct", "pub enum", "pub trait", "where", "pub type", "fn ", "pub fn", "/*", "*")): continue
                if re.match(r"\w+: .*,$", s) and "(" not in s: continue
                if re.match(r"(F|G|A|B|C|T|E|M|Self[\w:]*): ", s): continue
                if s.startswith(("note = ", "since = ", "\"")): continue
                code = lambda x: re.sub(r'\s*//.*', '', re.sub(r'"(\\.|[^"\\])*"', '""', x))
                seen = {l}
                def add(n):
                    if not n.startswith("\0") and n and code(n) == code(l): return
                    if n not in seen: seen.add(n); out.append((rel, i, l, n))
                for a, b in SUBS:
                    for m in re.finditer(a, l):
                        add(l[:m.start()] + m.expand(b) + l[m.end():])
                for n in pairs(l): add(n)
                if s.endswith(";") and not s.startswith(("let ", "return", "}")) and s.count("(") == s.count(")"): add("")
                if i + 1 < len(L) and s.endswith(",") and "=>" in s and "=>" in L[i + 1] and L[i + 1].strip().endswith(","):
                    a, b = s[:-1].split("=>", 1); c, d = L[i + 1].strip()[:-1].split("=>", 1)
                    add("\0%s=>%s,\n%s=>%s," % (a, d, c, b))
                if i + 1 < len(L) and s.endswith(";") and L[i + 1].strip().endswith(";"):
                    add("\0%s\n%s" % (L[i + 1], l))
    return out
def apply(w, mu):
    rel, i, old, new = mu
    p = os.path.join(w, rel); L = open(os.path.join(R, rel)).read().split("\n")
    if new.startswith("\0"): a, b = new[1:].split("\n"); L[i] = a; L[i + 1] = b
    else: L[i] = new
    open(p, "w").write("\n".join(L))
    return p
def revert(w, mu): shutil.copy(os.path.join(R, mu[0]), os.path.join(w, mu[0]))
ENV = dict(os.environ, HOME="/root", RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", CARGO_INCREMENTAL="1", CARGO_PROFILE_DEV_DEBUG="0", RUSTC_WRAPPER="", CARGO_BUILD_JOBS="3")
def run(c, w, t=240):
    try: return subprocess.run(c, cwd=w, env=ENV, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=t).returncode == 0
    except subprocess.TimeoutExpired: return False
def main():
    ms = mutants(); random.Random(SEED).shuffle(ms)
    per = {}; keep = []
    for m in ms:   # at most 3 per line
        per[m[0], m[1]] = per.get((m[0], m[1]), 0) + 1
        if per[m[0], m[1]] <= 3: keep.append(m)
    print(len(ms), len(keep)); ms = keep[:N]
    q = queue.Queue(); [q.put(m) for m in ms]
    st = {"build": 0, "killed": 0, "survived": 0}; lk = threading.Lock(); out = open(D + "/survivors.jsonl", "a")
    def work(k):
        w = "%s/w%d" % (D, k)
        if not os.path.exists(w):
            subprocess.run(["cp", "-a", R, w])
        else: subprocess.run(["rsync", "-a", R + "/src/", w + "/src/"]) if shutil.which("rsync") else subprocess.run(["cp", "-a", R + "/src", w + "/"])
        while True:
            try: m = q.get_nowait()
            except queue.Empty: break
            apply(w, m)
            if not run(["cargo", "check", "-q", "--all-features", "--lib", "--offline"], w): r = "build"
            elif not run(["cargo", "test", "-q", "--workspace", "--all-features", "--lib", "--tests", "--offline", "--", "--test-threads", "4", "--skip", "test_validated::performance_tests"], w): r = "killed"
            elif not run(["cargo", "test", "-q", "--workspace", "--all-features", "--doc", "--offline", "--", "--test-threads", "4"], w): r = "killed"
            else: r = "survived"
            revert(w, m)
            with lk:
                st[r] += 1
                if r == "survived": out.write(json.dumps(m) + "\n"); out.flush()
                if sum(st.values()) % 25 == 0: print(st, flush=True)
    ts = [threading.Thread(target=work, args=(k,)) for k in range(W)]
    [t.start() for t in ts]; [t.join() for t in ts]
    print(st, "of", len(mutants()))
if __name__ == "__main__":
    os.makedirs(D, exist_ok=True); main()
