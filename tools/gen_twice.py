"""Second-run laws: for every law that ends in a run of one value, the same value run twice.

A computation that keeps something from one run to the next satisfies each single-run law and
breaks the two-run one.  usage: gen_twice.py c09 c10 ...   (rewrites the laws called ..__again)
The generated laws that do not compile are left out (the list of left-out names is in LEFT)."""
import re, sys, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
RUNS = {
 "c09": "run_state eval_state exec_state exec_pure try_run_state try_run_state_with_context try_eval_state try_eval_state_with_context try_exec_state try_exec_state_with_context",
 "c10": "run_reader unwrap_with try_run_reader try_run_reader_with_context",
 "c12": "run",
 "c13": "run try_get try_get_composable try_get_with_context is_effect",
 "c15": "get set set_always modify preview review set_focus modify_focus set_if_different forward backward",
 "c16": "forward backward convert_forward convert_backward get set modify preview review",
 "c27": "contains",
 "c30": "evaluate run",
}
LEFT = {l.strip() for l in open(V + "/tools/twice_left.txt")} if os.path.exists(V + "/tools/twice_left.txt") else set()
# laws about values that are already known when the computation is built: the functions are applied then, once
VALUES = {
 "c09": "t_apply_lift_both t_fmap_option_lift t_join_lift t_map_error_lift".split(),
 "c13": "a_apply_pure_pure a_zip_with_pure apply_pure_pure associativity bind_run bind_run_opaque fmap_run left_identity".split(),
}
def match(s, i):
    """index after the bracket that closes s[i]"""
    d = 0
    while i < len(s):
        if s[i] in "([{": d += 1
        elif s[i] in ")]}":
            d -= 1
            if d == 0: return i + 1
        i += 1
    raise ValueError
def split(s, sep=","):
    out = []; d = 0; a = 0; ang = 0
    for i, c in enumerate(s):
        if c in "([{": d += 1
        elif c in ")]}": d -= 1
        elif c == "<": ang += 1
        elif c == ">" and s[i - 1] not in "-=": ang -= 1
        elif c == sep and d == 0 and (ang == 0 or sep == ";"): out.append(s[a:i].strip()); a = i + 1
    out.append(s[a:].strip())
    return [x for x in out if x]
def subst(e, x, y): return re.sub(r"(?<![\w.])%s(?!\w|:(?!:))" % x, y, e)
def parse(line):
    m = re.match(r"(v?law)!\{ (\w+) \[", line)
    if not m: return None
    i = m.end() - 1; j = match(line, i); gen = line[i + 1:j - 1]
    k = line.index("(", j); e = match(line, k); params = line[k + 1:e - 1]
    rest = line[e:].rstrip()
    if not rest.startswith(" -> ") or not rest.endswith("}"): return None
    parts = split(rest[4:-1].strip(), ";")
    if len(parts) != 3: return None
    return m.group(1), m.group(2), gen, [tuple(y.strip() for y in p.split(":", 1)) for p in split(params)], parts[0], parts[1], parts[2]
def run_of(lhs, runs):
    """lhs = pre + receiver + .run(args) + post"""
    for pre in ("", "rc("):
        if not lhs.startswith(pre): continue
        b = lhs[len(pre):]; d = 0; best = None; i = 0
        while i < len(b):
            c = b[i]
            if c in "([{": d += 1
            elif c in ")]}": d -= 1
            elif c == "." and d == 0:
                m = re.match(r"\.(\w+)\(", b[i:])
                if m and m.group(1) in runs: best = (i, m.group(1))
            i += 1
        if best is None: continue
        i, nm = best; a = i + 1 + len(nm); e = match(b, a)
        recv, args, post = b[:i], b[a + 1:e - 1], b[e:]
        if re.match(r"(\.(ok|into_inner|await|is_some|is_none|is_ok)(\(\))?)*(\)?)$", post) and not recv.startswith("{") and "|" not in recv.split("(")[0]: return pre, recv, nm, args, post
    return None
def twice(line, runs, prop):
    p = parse(line)
    if p is None: return None
    kind, name, gen, params, ret, lhs, rhs = p
    if name.endswith("_twice"): return None
    asy = ret.startswith("impl Future<Output = ")
    if asy:
        if not (lhs.startswith("async move { ") and rhs.startswith("async move { ")): return None
        ret = ret[len("impl Future<Output = "):-1]; lhs = lhs[len("async move { "):-1].strip(); rhs = rhs[len("async move { "):-1].strip()
        if ";" in "".join(split(lhs, ";")[1:]) or len(split(lhs, ";")) > 1: return None
    r = run_of(lhs, runs)
    if r is None: return None
    pre, recv, nm, args, post = r
    names = [x for x, _ in params]
    first = None; a1 = []; a2 = []; z = None
    for a in split(args):
        m = re.match(r"(&?)(\w+)(\.clone\(\))?$", a)
        if not m or m.group(2) not in names: return None
        x = m.group(2)
        if z is None:
            z = x; a1.append(m.group(1) + (x if m.group(1) else x + ".clone()")); a2.append(m.group(1) + "z_" + x)
        else: a1.append(m.group(1) + (x if m.group(1) else x + ".clone()")); a2.append(a)
    ps = list(params)
    if z: ps.append(("z_" + z, dict(params)[z]))
    l = "{ let m0 = %s; let y1 = %sm0.%s(%s)%s; let y2 = %sm0.%s(%s)%s; (y1, y2) }" % (recv, pre, nm, ", ".join(a1), post, pre, nm, ", ".join(a2), post)
    gs = []
    tys = {t.lstrip("&") for _, t in params}
    for g in split(gen):
        x, _, b = g.partition(":")
        if x.strip() in tys and not re.search(r"\b(V|N|Clone|Copy)\b", b): g = g + (" + Clone" if b.strip() else ": Clone")
        gs.append(g)
    gen = ", ".join(gs)
    keep = "".join("let %s = %s.clone(); " % (x, x) for x in names)
    sw = "let %s = z_%s; " % (z, z) if z else ""
    rr = "{ let y1 = { %s%s }; let y2 = { %s%s }; (y1, y2) }" % (keep, rhs, sw, rhs)
    ty = "(%s, %s)" % (ret, ret)
    if asy: l, rr, ty = "async move " + l, "async move " + rr, "impl Future<Output = %s>" % ty
    if name in VALUES.get(prop, ()): kind = "vlaw"
    return "%s!{ %s__again [%s] (%s) -> %s ; %s ; %s }" % (kind, name, gen, ", ".join("%s: %s" % q for q in ps), ty, l, rr)
def main(ps):
    for p in ps:
        f = "%s/spec/%s.rs" % (V, p)
        ls = [l for l in open(f).read().split("\n") if not re.match(r"\s*v?law!\{ \w+__again ", l)]
        out = []; here = []; top = []; mod = None; n = 0
        for line in ls:
            q = line.strip()
            if q.startswith("pub mod") and not q.endswith("}"): mod = re.match(r"pub mod (\w+)", q).group(1)
            elif q == "}" and mod:
                out += here; n += len(here); here = []; mod = None
            t = twice(q, RUNS[p].split(), p)
            if t:
                nm = "::".join([p] + ([mod] if mod else []) + [re.match(r"v?law!\{ (\w+)", t).group(1)])
                if nm not in LEFT: (here if mod else top).append(t)
            out.append(line)
        while out and not out[-1].strip(): out.pop()
        out += top; n += len(top)
        open(f, "w").write("\n".join(out) + "\n")
        print(p, n)
main(sys.argv[1:] or sorted(RUNS))
