"""Gated value-flow summaries of MIR bodies (see DESIGN.md)."""
import json, os, re
from terms import *
PEELSTEPS = 1500000           # terms made by one unrolled loop, at most

class Prog:
    n = 0
    def __init__(self, path):
        d = json.load(open(path))
        self.bodies = d["bodies"]; self.types = d["types"]
        self.id = Prog.n; Prog.n += 1
        PROGS[self.id] = self
        self.cfg = {}
PROGS = {}
PVEC = [lambda *a: None]

class Stuck(Exception): pass
class Budget(Exception): pass

def strip_gen(p):
    out = []; d = 0; i = 0
    while i < len(p):
        c = p[i]
        if c == "<": d += 1
        elif c == ">" and p[i - 1] != "-": d -= 1
        elif d == 0: out.append(c)
        i += 1
    return "".join(out)

_short = {}
def short(p):
    r = _short.get(p)
    if r is None:
        q = p.replace("Atomic::<bool>", "AtomicBool")
        q = re.sub(r"Atomic::<[iu][a-z0-9]+>", "AtomicNum", q)
        q = re.sub(r"<impl \[T\]>", "slice", q)
        q = re.sub(r"<impl \[S\]>", "slice", q)
        q = re.sub(r"<impl str>", "str", q)
        q = re.sub(r"<impl [A-Za-z0-9_]+>", lambda m: m.group(0)[6:-1], q)
        q = strip_gen(q).replace("::::", "::")
        seg_ = [s for s in q.split("::") if s]
        r = "::".join(seg_[-2:])
        _short[p] = r
    return r

# ---------------- CFG helpers
class CFG:
    def __init__(self, body):
        self.succ = {}
        bl = body["blocks"]
        for i, b in enumerate(bl):
            if b is None: continue
            t = b["t"]; k = t[0]
            if k in ("goto", "drop", "assert", "yield"): s = [t[1]]
            elif k == "switch": s = [x[1] for x in t[2]] + [t[3]]
            elif k == "call": s = [t[4]] if t[4] is not None else []
            else: s = []
            if k == "ret": s = ["EXIT"]
            self.succ[i] = [x for x in dict.fromkeys(s)]
        self.succ["EXIT"] = []
        # reachable from 0
        seen = set(); st = [0]
        while st:
            x = st.pop()
            if x in seen: continue
            seen.add(x); st.extend(self.succ.get(x, []))
        self.succ = {k: v for k, v in self.succ.items() if k in seen}
        # drop edges into pure-unreachable blocks
        dead = {i for i in self.succ if i != "EXIT" and bl[i]["t"][0] == "unreachable" and not bl[i]["s"]}
        self.dead = dead
        self.succ = {k: [x for x in v if x not in dead] for k, v in self.succ.items() if k not in dead}
        self.pred = {k: [] for k in self.succ}
        for k, v in self.succ.items():
            for x in v: self.pred[x].append(k)
        self.dom = self._dom(self.succ, self.pred, 0)
        self.loops = {}
        for k, v in self.succ.items():
            for h in v:
                if h in self.dom.get(k, ()):  # back edge
                    L = self.loops.setdefault(h, {h})
                    st = [k]
                    while st:
                        x = st.pop()
                        if x in L: continue
                        L.add(x); st.extend(self.pred[x])
        self._ip = {}
    @staticmethod
    def _dom(succ, pred, root):
        nodes = list(succ)
        # reachable from root
        seen = set(); st = [root]; order = []
        while st:
            x = st.pop()
            if x in seen: continue
            seen.add(x); order.append(x); st.extend(succ[x])
        dom = {n: set(seen) for n in seen}
        dom[root] = {root}
        ch = True
        while ch:
            ch = False
            for n in order:
                if n == root: continue
                ps = [dom[p] for p in pred[n] if p in dom]
                if not ps: continue
                d = set.intersection(*ps) | {n}
                if d != dom[n]: dom[n] = d; ch = True
        return dom
    def ipdom(self, ctx, b):
        """immediate postdominator of b inside ctx (None or loop header)"""
        m = self._ip.get(ctx)
        if m is None:
            succ = {}
            if ctx is None:
                for k, v in self.succ.items(): succ[k] = list(v) or ["VEXIT"]
            else:
                L = self.loops[ctx]
                for k in L:
                    succ[k] = ["HDR" if x == ctx else x for x in self.succ[k]] or ["VEXIT"]
                    for x in self.succ[k]:
                        if x not in L: succ[x] = ["VEXIT"]
                succ["HDR"] = ["VEXIT"]
            # paths that diverge do not constrain post-dominance
            term = set()
            good = {"EXIT"} if ctx is None else {"HDR"} | {x for x in succ if ctx is not None and x not in self.loops[ctx]}
            good.discard("VEXIT")
            ok = set(good); ch = True
            while ch:
                ch = False
                for k, v in succ.items():
                    if k not in ok and any(x in ok for x in v): ok.add(k); ch = True
            succ = {k: ([x for x in v if x in ok or x == "VEXIT"] if k not in good else ["VEXIT"]) for k, v in succ.items() if k in ok}
            succ["VEXIT"] = []
            pred = {k: [] for k in succ}
            for k, v in succ.items():
                for x in v: pred[x].append(k)
            pd = self._dom({k: pred[k] for k in succ}, succ, "VEXIT")
            m = {}
            for n in succ:
                if n not in pd: continue
                c = pd[n] - {n}
                best = None
                for x in c:
                    if best is None or len(pd[x]) > len(pd[best]): best = x
                m[n] = best
            self._ip[ctx] = m
        r = m.get(b)
        return r if r is not None else "VEXIT"

def gate_key(t, k):
    """the fact recorded when the arm k of case t is taken"""
    if k != "else": return k
    return ("x", frozenset(kk for kk, _ in t.a[1] if kk != "else"))
def pick_arm(t, k):
    arms = t.a[1]
    if isinstance(k, tuple):
        left = [(kk, x) for kk, x in arms if kk == "else" or kk not in k[1]]
        if not left: return BOT
        if len(left) == 1: return left[0][1]
        if len(left) < len(arms): return case(t.a[0], left)
        return None
    for kk, x in arms:
        if kk == k: return x
    for kk, x in arms:
        if kk == "else": return x
    return BOT

# consumers that may stop before the end
PARTIAL = {"Iterator::" + x for x in "next take take_while map_while skip_while find find_map any all position rposition nth try_fold try_for_each peekable zip eq ne cmp partial_cmp lt le gt ge scan rev fold for_each reduce".split()} | {"DoubleEndedIterator::next_back", "DoubleEndedIterator::rfind", "DoubleEndedIterator::nth_back", "DoubleEndedIterator::rfold"}
class Frame:
    __slots__ = ("prog", "inst", "body", "id", "cfg", "ctx", "dtypes")
    def __init__(self, prog, inst, body, fid, cfg, ctx=None):
        self.prog = prog; self.inst = inst; self.body = body; self.id = fid; self.cfg = cfg; self.ctx = ctx
    def within(self, ctx):
        return Frame(self.prog, self.inst, self.body, self.id, self.cfg, ctx)

def P(scrut, arms): return ("br", scrut, arms)
def L(stop, env): return ("leaf", stop, env)

MODELS = {}
MAPGET = [None, None]
EVHOOK = {}
def model(*names):
    def d(f):
        for n in names: MODELS[n] = f
        return f
    return d

class Info:
    __slots__ = ("prog", "c", "span", "fr", "path", "short", "dty")

class Ev:
    MAXSTEPS = 60000
    def __init__(self, maxdepth=60):
        self.fid = 0; self.stack = []; self.live = []; self.stateful = 0; self.checked = False; self.maxdepth = maxdepth
        self.analysed = {}; self.sites = 0; self.steps = 0
        self.unknown = {}
        self.flags = set()
        self.noclone = False; self.betam = {}
        APPHOOK[0] = self
    # ---- memory
    def newframe(self):
        self.fid += 1; return self.fid
    def slot(self, env, v, hint="t"):
        f = self.newframe(); env[(f, 0)] = v
        return mk("mref", f, 0, ())
    def mc(self, c):
        """element i of a place, iterated mutably"""
        b = c.a[0]
        return mk("mref", b.a[0], b.a[1], b.a[2] + (("idx", c.a[1]),))
    def read(self, lv, env):
        if lv.op == "mcell": lv = self.mc(lv)
        if lv.op == "case": return case(lv.a[0], [(k, self.read(x, env)) for k, x in lv.a[1]])
        if lv.op == "bot": return BOT
        if lv.op == "mref":
            v = env.get((lv.a[0], lv.a[1]))
            if v is None: return BOT
            for p in lv.a[2]: v = self.pj(v, p, env)
            return v
        return lv
    def pj(self, v, p, env):
        if v.op in ("mref", "mcell") or (v.op == "case" and self.has_mref(v)): v = self.read(v, env)
        if p[0] == "f": return proj(p[1], p[2], v)
        if p[0] == "idx": return idx(v, p[1])
        if p[0] == "sub":
            n = length(v)
            return seg(v, lit(p[1]), add(n, lit(p[2]), -1) if p[3] else lit(p[2]))
        if p[0] == "seg": return seg(v, p[1], p[2])
        if p[0] == "last": return initlast(v)[1]
        if p[0] == "hd": return hdtl(v)[0]
        if p[0] == "one": return seq([v])
        if p[0] == "key": 
            g = MAPGET[0](v, p[1]); return proj(1, 0, g)
        return unk("pj", str(p))
    @staticmethod
    @memo
    def has_mref(v):
        return v.op in ("mref", "mcell") or (v.op == "case" and any(Ev.has_mref(x) for _, x in v.a[1]))
    def write(self, lv, v, env):
        if lv.op == "mcell": lv = self.mc(lv)
        if lv.op == "case":
            for k, x in lv.a[1]:
                if x.op == "bot": continue
                old = self.read(x, env)
                self.write(x, case(lv.a[0], [(kk, v if kk == k else old) for kk, _ in lv.a[1]]), env)
            return
        if lv.op != "mref":
            if lv.op not in ("bot", "moved"): self.flags.add("lost-write")
            return
        key = (lv.a[0], lv.a[1])
        env[key] = self.wr(env.get(key, BOT), lv.a[2], v, env)
    def wr(self, base, path, v, env):
        if not path: return v
        p = path[0]
        if p[0] == "f":
            if base.op == "bot": base = mk("uninit")
            if len(p) > 3 and base.op not in ("con", "case", "upd", "uninit"):
                # the variant is known here
                n = p[3][2]
                base = con(p[3][0], p[1], p[3][1], [proj(p[1], j, base) for j in range(n)])
            return upd(base, p[1], p[2], self.wr(proj(p[1], p[2], base), path[1:], v, env))
        if p[0] == "idx": return setidx(base, p[1], self.wr(idx(base, p[1]), path[1:], v, env))
        if p[0] == "seg": return cat(seg(base, lit(0), p[1]), self.wr(seg(base, p[1], p[2]), path[1:], v, env), seg(base, p[2], length(base)))
        if p[0] == "last":
            i, l = initlast(base); return cat(i, seq([self.wr(l, path[1:], v, env)]))
        if p[0] == "one": return idx(self.wr(seq([base]), path[1:], v, env), lit(0))
        if p[0] == "key": return MAPGET[1](base, p[1], self.wr(proj(1, 0, MAPGET[0](base, p[1])), path[1:], v, env))
        if p[0] == "hd":
            h, t = hdtl(base); return cat(seq([self.wr(h, path[1:], v, env)]), t)
        return unk("wr")
    def ext(self, lv, p):
        if lv.op == "mcell": lv = self.mc(lv)
        if lv.op == "case": return case(lv.a[0], [(k, self.ext(x, p)) for k, x in lv.a[1]])
        if lv.op == "mref": return mk("mref", lv.a[0], lv.a[1], lv.a[2] + (p,))
        return lv
    def lv(self, fr, place, env):
        """place -> lvalue (mref or case of mrefs)"""
        l, projs = place
        cur = mk("mref", fr.id, l, ())
        v = 0; dc = None
        for e in projs:
            k = e[0]
            if k == "d":
                x = self.read(cur, env)
                if self.has_mref(x): cur = x
                v = 0; dc = None
            elif k == "f": cur = self.ext(cur, ("f", v, e[1]) if dc is None else ("f", v, e[1], dc)); v = 0; dc = None
            elif k == "dc": v = e[1]; dc = tuple(e[2:]) if len(e) > 3 and e[3] > 1 else None
            elif k == "i": cur = self.ext(cur, ("idx", env.get((fr.id, e[1]), BOT)))
            elif k == "ci":
                if e[2]:
                    n = length(self.deref(self.read(cur, env), env))
                    cur = self.ext(cur, ("idx", add(n, lit(e[1]), -1)))
                else: cur = self.ext(cur, ("idx", lit(e[1])))
            elif k == "sub": cur = self.ext(cur, ("sub", e[1], e[2], e[3]))
            else: cur = self.ext(cur, ("o",))
        return cur
    def deref(self, v, env):
        n = 0
        while self.has_mref(v) and n < 10: v = self.read(v, env); n += 1
        return v
    # ---- constants / operands
    def const(self, fr, c, env):
        t = fr.prog.types[c["ty"]]
        k = t["k"]
        if k == "fndef":
            return mk("fndef", t["callee"]["path"], fr.prog.id, c["ty"])
        if "promoted" in c:
            v, _ = self.call_inst(fr.prog, c["promoted"], [], {"trace": NIL, "panic": FALSE}, {}, promoted=True)
            if v.op == "con" and v.a[0] == "$promoted": return self.slot(env, v.a[3])
            return v
        if "str" in c: return lit(c["str"])
        if "bytes" in c: return mk("fn", "bytes", True, *[lit(b) for b in c["bytes"]])
        if "v" in c:
            if k == "bool": return TRUE if c["v"] else FALSE
            if k == "char": return mk("lit", "char", c["v"])
            if k == "int": return lit(c["v"])
            if k == "float": return mk("lit", "float", c["v"])
            if k == "adt" and t["enum"]:
                for i, x in enumerate(t["vs"]):
                    if x["discr"] == c["v"] and not x["fields"]: return con(t["path"], i, len(t["vs"]), [])
            return mk("lit", "scalar:" + t["s"], c["v"])
        if c.get("zst"):
            if k == "tuple": return UNIT
            if k == "closure": return mk("clo", fr.prog.id, t["inst"])
            if k == "adt" and not t["enum"] and "PhantomData" not in t["path"]:
                return con(t["path"], 0, 1, [ZST for _ in t["vs"][0]["fields"]])
            return ZST
        if "named" in c:
            return mk("fn", "const:" + c["named"] + "".join("," + fr.prog.types[x]["s"] for x in c.get("targs", [])), True)
        if "ind" in c:
            m = re.match(r"^(.*)$", c["ind"])
            return mk("fn", "const=" + c["ind"], True)
        if "cparam" in c: return mk("fn", "cparam:" + c["cparam"], True)
        if "ptr" in c: return mk("fn", "const=" + c["ptr"], True)
        return unk("const", json.dumps(c, sort_keys=True))
    def op(self, fr, o, env):
        if "p" in o:
            v = self.read(self.lv(fr, o["p"], env), env)
            if o.get("mv") and v.op == "mref" and "acq" in self.__dict__ and not o["p"][1] and EVHOOK["guard"](self, v): env[(fr.id, o["p"][0])] = mk("moved")
            return v
        if "c" in o: return self.const(fr, o["c"], env)
        return unk("op")
    # ---- gates
    def gs(self, t, gate):
        """simplify the top-level decisions of t under the gate"""
        n = 0
        while t.op == "case" and n < 100000:
            k = gate.get(t.a[0])
            if k is None: return t
            r = pick_arm(t, k)
            if r is None: return t
            t = r
            n += 1
        return t
    def split(self, t, env, gate, f):
        """f(t', env, gate) for every top-level alternative of t; results merged"""
        t = self.gs(t, gate)
        if t.op == "case":
            res = []
            for k, x in t.a[1]:
                g = dict(gate); g[t.a[0]] = gate_key(t, k)
                res.append((k, self.split(x, dict(env), g, f)))
            v = case(t.a[0], [(k, r[0]) for k, r in res if r[1]["panic"] is not TRUE])
            return v, self.merge(t.a[0], [(k, r[1]) for k, r in res])
        return f(t, env, gate)
    def merge(self, s, arms):
        if len(arms) == 1: return arms[0][1]
        out = {}
        live = [(k, e) for k, e in arms if e["panic"] is not TRUE]
        pn = case(s, [(k, e["panic"]) for k, e in arms])
        if not live:
            e = dict(arms[0][1]); e["panic"] = TRUE; return e
        e0 = live[0][1]
        for key in e0:
            if key == "panic": continue
            v0 = e0[key]
            same = True
            for _, e in live[1:]:
                if e.get(key) is not v0: same = False; break
            if same: out[key] = v0
            else: out[key] = case(s, [(k, e.get(key, BOT)) for k, e in live])
        for _, e in live[1:]:
            for key in e:
                if key not in e0: out[key] = case(s, [(k, x.get(key, BOT)) for k, x in live])
        out["panic"] = pn
        return out
    def merge_tree(self, t):
        if t is None: return {"panic": TRUE, "trace": NIL}
        if t[0] == "leaf":
            if t[1] == "PANIC":
                e = dict(t[2]); e["panic"] = TRUE; return e
            return t[2]
        return self.merge(t[1], [(k, self.merge_tree(x)) for k, x in t[2] if x is not None] or [(0, {"panic": TRUE, "trace": NIL})])
    # ---- functions
    def call_inst(self, prog, i, args, env, gate, promoted=False):
        body = prog.bodies[i]
        if not body.get("ok"): return self.havoc("nobody:" + body["name"], args, env)
        key = (prog.id, i)
        if self.stack.count(key) >= 3 or len(self.stack) > self.maxdepth:
            return self.havoc("rec:" + body["name"], args, env)
        self.steps += 1
        if self.steps > self.MAXSTEPS: raise Budget()
        self.analysed[body["path"]] = 1
        fid = self.newframe()
        cfg = prog.cfg.get(i)
        if cfg is None: cfg = prog.cfg[i] = CFG(body)
        fr = Frame(prog, i, body, fid, cfg)
        env = dict(env)
        n = body["nargs"]
        for j, a in enumerate(args): env[(fid, j + 1)] = a
        self.stack.append(key); self.live.append(fid)
        try:
            t = self.run(fr, 0, frozenset(["EXIT"]), env, gate)
        finally: self.stack.pop(); self.live.pop()
        env = self.merge_tree(t)
        ret = env.get((fid, 0), UNIT)
        if promoted and ret.op == "mref": ret = con("$promoted", 0, 1, [self.deref(ret, env)])
        if env["panic"] is TRUE: ret = BOT
        env = {k: v for k, v in env.items() if not (isinstance(k, tuple) and k[0] == fid)}
        return ret, env
    def havoc(self, why, args, env):
        """result unknown; everything reachable through &mut is unknown too"""
        self.unknown[why] = self.unknown.get(why, 0) + 1
        self.clobber(why, args, env)
        vals = [self.deref(a, env) for a in args]
        self.flags.add("opaque-call")
        env = dict(env)
        env["trace"] = cat(env["trace"], mk("fn", "calls:" + why, False, *vals))
        return mk("fn", why, False, *vals), env
    def clobber(self, why, args, env):
        for j, a in enumerate(args):
            # a place written through something it keeps
            if not self.has_mref(a) and has_op(a, ("mref", "mcell")): self.flags.add("lost-write:" + why)
            if self.has_mref(a):
                vals = [self.deref(x, env) for x in args]
                self.write(a, mk("fn", "out%d:%s" % (j, why), False, *vals), env)
    def isrec(self, prog, inst): return (prog.id, inst) in self.stack
    # ---- blocks
    def run(self, fr, b, stops, env, gate, force=False):
        body = fr.body; cfg = fr.cfg
        while True:
            self.steps += 1
            if self.steps > self.MAXSTEPS: raise Budget()
            if env["panic"] is TRUE: return L("PANIC", env)
            if b in stops and not force: return L(b, env)
            if b == "EXIT": return L("EXIT", env)
            if b in cfg.dead: return None
            if b in cfg.loops and not force and b != fr.ctx:
                return self.loop(fr, b, stops, env, gate)
            force = False
            blk = body["blocks"][b]
            if blk is None: return None
            for s in blk["s"]: self.stmt(fr, s, env, gate)
            t = blk["t"]; k = t[0]
            if k == "drop":
                if "acq" in self.__dict__ and not t[2][1]:
                    v = env.get((fr.id, t[2][0]))
                    if v is not None and v.op == "mref": EVHOOK["release"](self, v, env); env[(fr.id, t[2][0])] = mk("moved")
                b = t[1]; continue
            if k == "goto": b = t[1]; continue
            if k == "assert":
                # arithmetic / bounds assertions: assumed to pass unless decidable
                c = self.gs(self.op(fr, t[2], env), gate)
                if c.op == "lit" and bool(c.a[1]) != t[3]:
                    env["panic"] = TRUE; return L("PANIC", env)
                if self.checked and c.op != "lit" and not c.op == "fn":
                    env["panic"] = bor(env["panic"], lnot(c) if t[3] else c)
                b = t[1]; continue
            if k == "ret":
                return L("EXIT", env)
            if k == "unreachable": return None
            if k == "call":
                v, env = self.call(fr, t, env, gate)
                if t[4] is None or env["panic"] is TRUE:
                    env = dict(env); env["panic"] = TRUE
                    return L("PANIC", env)
                self.write(self.lv(fr, t[3], env), v, env)
                b = t[4]; continue
            if k == "switch":
                return self.switch(fr, b, t, stops, env, gate)
            if k == "yield":
                self.flags.add("yield")
                self.write(self.lv(fr, t[2], env), unk("resume"), env)
                b = t[1]; continue
            self.flags.add("term:" + k)
            return None
    def dmap(self, fr, o):
        """if the switched operand is a discriminant: its type"""
        m = getattr(fr.cfg, "dm", None)
        if m is None:
            m = {}
            for blk in fr.body["blocks"]:
                if blk is None: continue
                for s in blk["s"]:
                    if s[0] == "a" and s[2][0] == "discr" and not s[1][1]: m[s[1][0]] = s[2][2]
            fr.cfg.dm = m
        if "p" in o and not o["p"][1] and o["p"][0] in m:
            return fr.prog.types[m[o["p"][0]]]
        return None
    def switch(self, fr, b, t, stops, env, gate):
        val = self.op(fr, t[1], env)
        dty = self.dmap(fr, t[1])
        oty = fr.prog.types[t[4]]
        targets = t[2]; other = t[3]
        J = fr.cfg.ipdom(fr.ctx, b)
        if J == "HDR": J = fr.ctx
        keys = []  # (key, target)
        if dty is not None and dty["k"] == "adt" and dty["enum"]:
            d2v = {x["discr"]: i for i, x in enumerate(dty["vs"])}
            tm = {d2v.get(v if v < 2**127 else v, d2v.get(v - (1 << 8) if v >= 128 else v)): bb for v, bb in targets}
            for i in range(len(dty["vs"])): keys.append((i, tm.get(i, other)))
            full = True
        elif oty["k"] == "bool":
            tm = dict((v, bb) for v, bb in targets)
            keys = [(0, tm.get(0, other)), (1, tm.get(1, other))]; full = True
        else:
            keys = [(v, bb) for v, bb in targets]; full = False
        keys = [(k, x) for k, x in keys]
        inner = stops | {J}
        def go(v, env, gate):
            v = self.gs(v, gate)
            if v.op == "bot": return None
            if v.op == "case":
                arms = []
                for k, x in v.a[1]:
                    g = dict(gate); g[v.a[0]] = gate_key(v, k)
                    arms.append((k, go(x, dict(env), g)))
                return P(v.a[0], arms)
            s = v
            if v.op == "discr" or dty is not None or oty["k"] == "bool": pass
            kk = gate.get(s)
            if kk is None: kk = keyof(s) if s.op in ("lit", "uncons") or (s.op == "discr") else None
            if v.op == "lit":
                kk = v.a[1]
                if kk is True: kk = 1
                if kk is False: kk = 0
            ex = frozenset()
            if isinstance(kk, tuple): ex = kk[1]; kk = None
            if kk is not None:
                for k, x in keys:
                    if k == kk: return self.run(fr, x, inner, env, gate)
                return self.run(fr, other, inner, env, gate)
            arms = []
            for k, x in keys:
                if x in fr.cfg.dead or k in ex: continue
                g = dict(gate); g[s] = k
                arms.append((k, self.run(fr, x, inner, dict(env), g)))
            if not full and other not in fr.cfg.dead:
                g = dict(gate); g[s] = ("x", frozenset(k for k, _ in keys) | ex)
                arms.append(("else", self.run(fr, other, inner, dict(env), g)))
            return P(s, arms)
        tree = go(val, env, gate)
        if J in stops or J == "VEXIT": return tree
        env = self.merge_tree(tree)
        if env["panic"] is TRUE: return L("PANIC", env)
        return self.run(fr, J, stops, env, gate)
    def stmt(self, fr, s, env, gate):
        if s[0] == "a":
            v = self.rvalue(fr, s[2], env, gate)
            pl = s[1]
            if not pl[1]: env[(fr.id, pl[0])] = v
            else:
                if pl[1] and pl[1][0][0] == "d":
                    ty = fr.prog.types[fr.body["locals"][pl[0]]]
                    if ty["k"] == "ref" and ty.get("mut"):
                        x = env.get((fr.id, pl[0]), BOT)
                        if not self.has_mref(x) and x.op not in ("bot", "moved"): self.flags.add("lost-write:ref")
                self.write(self.lv(fr, pl, env), v, env)
        elif s[0] == "sd": self.flags.add("setdiscr")
    def rvalue(self, fr, r, env, gate):
        k = r[0]
        if k == "use": return self.op(fr, r[1], env)
        if k == "ref":
            lv = self.lv(fr, r[2], env)
            if r[1] == "m": return lv
            return self.read(lv, env)
        if k == "rawptr":
            return self.lv(fr, r[2], env) if "Mut" in r[1] else self.read(self.lv(fr, r[2], env), env)
        if k == "cast":
            v = self.op(fr, r[2], env)
            if "Transmute" in r[1]: return v
            if r[1].startswith("IntToInt"):
                if litval(v) is True: return lit(1)
                if litval(v) is False: return lit(0)
                return v
            if r[1].startswith(("PointerCoercion", "PtrToPtr", "Subtype")): return v
            if v.op == "lit" and r[1] == "IntToFloat": return mk("fn", "float", False, v)
            return mk("fn", "cast:" + r[1], False, v)
        if k == "bin":
            x, y = self.op(fr, r[2], env), self.op(fr, r[3], env)
            if r[1] in ("Eq", "Ne") and "p" in r[2] and not r[2]["p"][1] and fr.prog.types[fr.body["locals"][r[2]["p"][0]]]["k"] == "ptr":
                z = mk("fn", "ptr_eq", False, self.deref(x, env), self.deref(y, env))
                return z if r[1] == "Eq" else lnot(z)
            if r[1] == "SubWithOverflow" and self.checked and r[4]: return tup([add(x, y, -1), on_cmp(x, y, TRUE, FALSE, FALSE)])
            if r[1] in ("BitAnd", "BitOr", "BitXor", "Eq", "Ne") and any("p" in o and not o["p"][1] and fr.prog.types[fr.body["locals"][o["p"][0]]]["k"] == "bool" for o in r[2:4]):
                if r[1] == "Eq": return case_bool(x, y, lnot(y))
                return case_bool(x, y, FALSE) if r[1] == "BitAnd" else case_bool(x, TRUE, y) if r[1] == "BitOr" else case_bool(x, lnot(y), y)
            return self.binop(r[1], x, y)
        if k == "un":
            v = self.op(fr, r[2], env)
            if r[1] == "Not":
                return lnot(v)
            if r[1] == "PtrMetadata": return length(self.deref(v, env))
            if r[1] == "Neg":
                return add(lit(0), v, -1)
            return mk("fn", "un:" + r[1], False, v)
        if k == "discr":
            d = discr(self.deref(self.read(self.lv(fr, r[1], env), env), env)); ty = fr.prog.types[r[2]]
            if ty["k"] == "adt" and ty["enum"] and all(x["discr"] == i for i, x in enumerate(ty["vs"])): NVAR[d.id] = len(ty["vs"])
            return d
        if k == "agg":
            ak = r[1]; vs = [self.op(fr, o, env) for o in r[2]]
            if ak[0] == "tuple": return tup(vs)
            if ak[0] == "array": return seq(vs)
            if ak[0] == "adt":
                ty = fr.prog.types[ak[3]]
                if ak[1].startswith("std::ops::Range") : return con(ak[1], 0, 1, vs)
                return con(ak[1], ak[2], len(ty["vs"]), vs)
            if ak[0] in ("closure", "coroutine"):
                ty = fr.prog.types[ak[1]]
                if "inst" not in ty: return unk("closure", ty["path"])
                return mk("clo" if ak[0] == "closure" else "cor", fr.prog.id, ty["inst"], *vs)
            return unk("agg", str(ak))
        if k == "repeat":
            v = self.op(fr, r[1], env)
            m = re.match(r"^(\d+)", r[2])
            if m and int(m.group(1)) <= 8: return seq([v] * int(m.group(1)))
            return mk("fn", "repeat:" + r[2], False, v)
        self.flags.add("rv:" + k)
        return unk("rv", k, json.dumps(r))
    def binop(self, o, a, b):
        if a.op == "bot" or b.op == "bot": return BOT
        if o in ("Add", "AddUnchecked"): return add(a, b)
        if o in ("Sub", "SubUnchecked"): return add(a, b, -1)
        if o == "AddWithOverflow": return tup([add(a, b), FALSE])
        if o == "SubWithOverflow": return tup([add(a, b, -1), FALSE])
        if o == "MulWithOverflow": return tup([mul(a, b), FALSE])
        if o in ("Mul", "MulUnchecked"): return mul(a, b)
        if o == "Lt": return on_cmp(a, b, TRUE, FALSE, FALSE)
        if o == "Le": return on_cmp(a, b, TRUE, TRUE, FALSE)
        if o == "Gt": return on_cmp(a, b, FALSE, FALSE, TRUE)
        if o == "Ge": return on_cmp(a, b, FALSE, TRUE, TRUE)
        if o == "Cmp": return on_cmp(a, b, ordc(-1), ordc(0), ordc(1))
        if o in ("Eq", "Ne"):
            y, n = (TRUE, FALSE) if o == "Eq" else (FALSE, TRUE)
            for x, z in ((a, b), (b, a)):
                if x is TRUE: return z if o == "Eq" else lnot(z)
                if x is FALSE: return lnot(z) if o == "Eq" else z
            if a.op == "discr" and b.op == "lit": return case(a, [(b.a[1], y), ("else", n)]) if False else eqv(a, b, y, n)
            return eqv(a, b, y, n)
        if o == "BitAnd" and isbool(a, b): return case_bool(a, b, FALSE)
        if o == "BitOr" and isbool(a, b): return case_bool(a, TRUE, b)
        if o == "BitXor" and isbool(a, b): return case_bool(a, lnot(b), b)
        return binary(o, a, b)
    # ---- loops
    def loop(self, fr, h, stops, env, gate):
        cfg = fr.cfg
        nodes = cfg.loops[h]
        exits = []
        for n in nodes:
            for x in cfg.succ[n]:
                if x not in nodes and x not in exits: exits.append(x)
        f2 = fr.within(h)
        st = frozenset([h] + exits)
        def ev(env0):
            return self.run(f2, h, st, env0, gate, force=True)
        tree = self.summarise(env, ev, h, 40 if "pvec::" in fr.body["path"] else 4, gate)
        J = cfg.ipdom(fr.ctx, h)
        while J in nodes and J != fr.ctx: J = cfg.ipdom(fr.ctx, J)
        if J == "HDR": J = fr.ctx
        # continue from exits
        inner = stops | {J}
        def cont(t, gate):
            if t is None: return None
            if t[0] == "leaf":
                if t[1] == "PANIC": return t
                return self.run(fr, t[1], inner, dict(t[2]), gate)
            arms = []
            for k, x in t[2]:
                g = dict(gate); g[t[1]] = k if k != "else" else ("x", frozenset(kk for kk, _ in t[2] if kk != "else"))
                arms.append((k, cont(x, g)))
            return P(t[1], arms)
        # single exit: merge before continuing
        ex = set(); self.leaf_stops(tree, ex)
        ex.discard("PANIC")
        if len(ex) == 1:
            e = self.merge_tree(tree)
            if e["panic"] is TRUE: return L("PANIC", e)
            x = ex.pop()
            return self.run(fr, x, stops, e, gate)
        tree = cont(tree, gate)
        if J in stops or J == "VEXIT": return tree
        e = self.merge_tree(tree)
        if e["panic"] is TRUE: return L("PANIC", e)
        return self.run(fr, J, stops, e, gate)
    def leaf_stops(self, t, acc):
        if t is None: return
        if t[0] == "leaf": acc.add(t[1])
        else:
            for _, x in t[2]: self.leaf_stops(x, acc)
    def leaves(self, t, path=()):
        if t is None: return
        if t[0] == "leaf": yield path, t
        else:
            for k, x in t[2]: yield from self.leaves(x, path + ((t[1], k),))
    def tmap(self, t, f):
        if t is None: return None
        if t[0] == "leaf": return f(t)
        return P(t[1], [(k, self.tmap(x, f)) for k, x in t[2]])
    def tterm(self, t, f):
        """term of a tree: case over its decisions of f(leaf)"""
        if t is None: return BOT
        if t[0] == "leaf": return f(t)
        return case(t[1], [(k, self.tterm(x, f)) for k, x in t[2]])
    def gated(self, t, gate):
        """resolve the values of each leaf under the decisions leading to it"""
        if t is None: return None
        if t[0] == "leaf":
            def g_(v):
                v = self.gs(v, gate)
                if v.op == "con" and len(v.a) > 3 and any(x.op in ("case", "con") for x in v.a[3:]): return con(v.a[0], v.a[1], v.a[2], [g_(x) for x in v.a[3:]])
                return v
            return L(t[1], {k: g_(v) if isinstance(v, T) else v for k, v in t[2].items()})
        arms = []
        for k, x in t[2]:
            g = dict(gate)
            g[t[1]] = k if k != "else" else ("x", frozenset(kk for kk, _ in t[2] if kk != "else"))
            arms.append((k, self.gated(x, g)))
        return P(t[1], arms)
    def expand_panic(self, t):
        def f(lf):
            if lf[1] == "PANIC": return lf
            p = lf[2]["panic"]
            def go(p):
                if p is FALSE:
                    e = dict(lf[2]); e["panic"] = FALSE; return L(lf[1], e)
                if p is TRUE: return L("PANIC", lf[2])
                if p.op == "case": return P(p.a[0], [(k, go(x)) for k, x in p.a[1]])
                return P(p, [(0, go(FALSE)), (1, go(TRUE))])
            return go(p)
        return self.tmap(t, f)
    def summarise(self, env, ev, hdr, rounds=4, gate={}):
        """loop summary. ev(env0) -> tree with leaves at hdr (next iteration), exits, PANIC"""
        self.steps += 1
        outer_panic = env["panic"]
        base = dict(env); base["panic"] = FALSE
        cur = dict(base)
        mine = set()
        for rnd in range(25):
            tree = self.gated(self.expand_panic(ev(dict(cur))), {})
            changed = False
            for _, lf in self.leaves(tree):
                if lf[1] != hdr: continue
                e = lf[2]
                for key in list(cur):
                    if key == "panic": continue
                    v = e.get(key, cur[key])
                    if v is cur[key]: continue
                    # generalise
                    nv = self.gen(cur[key], v, mine, gate)
                    if nv is not cur[key]: cur[key] = nv; changed = True
            if not changed: break
        else:
            self.flags.add("loop-nofix")
        # collect variables: phi symbols with their init and per-leaf step
        phis = []  # (sym, init)
        inits = {}
        for key in cur:
            if cur[key] is not base[key]: self.collect(cur[key], base[key], phis, inits, mine)
        res = self.shape(tree, phis, inits, base, cur, hdr)
        if res == "opaque":
            # a loop variable that starts as one of several variants: each on its own
            sp = next((inits[p] for p in phis if inits[p].op == "case" and any(x.op == "con" and len(inits[p].a[1]) > 1 for _, x in inits[p].a[1])), None)
            if sp is not None:
                s = sp.a[0]; arms = []
                for k, _ in sp.a[1]:
                    g = {s: gate_key(sp, k)}
                    e = {kk: self.gs(v, g) if isinstance(v, T) else v for kk, v in env.items()}
                    arms.append((k, self.summarise(e, ev, hdr, rounds, {**gate, **g})))
                return P(s, arms)
            res = self.peel(ev, base, hdr, rounds)
            if res == "opaque": res = self.opaque(tree, phis, inits, base, cur, hdr)
        def fin(lf):
            e = dict(lf[2])
            if lf[1] != "PANIC": e["panic"] = bor(outer_panic, e.get("panic", FALSE))
            return L(lf[1], e)
        return self.tmap(res, fin)
    def gen(self, a, b, mine, gate={}):
        """anti-unify a (current header value, may hold phis of this loop) with b"""
        if a is b: return a
        if a in mine: return a
        if a.op == "con" and b.op == "con" and a.a[:3] == b.a[:3] and len(a.a) == len(b.a) and len(a.a) > 3:
            return con(a.a[0], a.a[1], a.a[2], [self.gen(x, y, mine, gate) for x, y in zip(a.a[3:], b.a[3:])])
        if b.op == "con" and len(b.a) > 3 and a.op not in ("con", "case", "mref", "mcell", "bot") and gate and gate.get(mk("discr", a)) == b.a[1]:
            # a value known to be of that variant
            return con(b.a[0], b.a[1], b.a[2], [self.gen(proj(b.a[1], i, a), y, mine, gate) for i, y in enumerate(b.a[3:])])
        s = fresh("phi"); mine.add(s)
        return s
    def collect(self, a, b, phis, inits, mine):
        if a in mine:
            if a not in inits: phis.append(a); inits[a] = b
            return
        if a is b: return
        if a.op == "con":
            for x, y in zip(a.a[3:], b.a[3:] if b.op == "con" else [proj(a.a[1], i, b) for i in range(len(a.a) - 3)]): self.collect(x, y, phis, inits, mine)
    def stepval(self, cur, e, s):
        """value of phi s in leaf env e"""
        def find(a, b):
            if a is s: return b
            if a.op == "con" and b.op == "con":
                for x, y in zip(a.a[3:], b.a[3:]):
                    r = find(x, y)
                    if r is not None: return r
            return None
        for key, a in cur.items():
            if a.op == "sym" and a is not s: continue
            if a is s or (a.op == "con" and s.id in syms(a)):
                r = find(a, e.get(key, a))
                if r is not None: return r
        return s
    def shape(self, tree, phis, inits, base, cur, hdr):
        pset = set(phis)
        pid = frozenset(p.id for p in phis)
        steps = {}
        for p in phis:
            steps[p] = [self.stepval(cur, lf[2], p) for _, lf in self.leaves(tree) if lf[1] == hdr]
        nlv = sum(1 for _, lf in self.leaves(tree) if lf[1] == hdr)
        if nlv == 0:
            # never iterates again
            return tree
        # (A) iteration over a sequence
        t = self.focus(tree, pset)
        if t is not None and t[0] == "br" and t[1].op == "uncons" and t[1].a[0] in pset:
            it = t[1].a[0]
            arm = {k: x for k, x in t[2]}
            a0, a1 = arm.get(0), arm.get(1)
            nil_ok = all(lf[1] != hdr for _, lf in self.leaves(a0)) if a0 is not None else True
            fwd = all(s is mk("tl", it) for s in steps[it])
            bwd = all(s is mk("init", it) for s in steps[it])
            if nil_ok and (fwd or bwd):
                x = fresh("e")
                W = inits[it] if fwd else rev(inits[it])
                m = {mk("hd", it): x, mk("tl", it): mk("tlx", it)} if fwd else {mk("last", it): x, mk("init", it): mk("tlx", it)}
                r = self.seqloop(W, it, x, a0, a1, m, phis, inits, base, cur, hdr)
                if r is not None: return r
        # (B) counted loop  i < n / i != n, i += 1
        if t is not None and t[0] == "br" and t[1].op == "cmp":
            a, b = t[1].a
            for i, n, lt in ((a, b, -1), (b, a, 1)):
                if syms(n) & pid:
                    # a bound given by sequences whose length the body keeps
                    keep = {length(p): length(inits[p]) for p in phis if p.id in syms(n) and all(length(s) is length(p) for s in steps[p])}
                    n = subst(n, keep)
                if i in pset and not (syms(n) & pid) and all(s is add(i, lit(1)) for s in steps[i]):
                    arm = {k: x for k, x in t[2]}
                    stay = arm.get(lt)
                    if stay is None: continue
                    outs = [v for k, v in arm.items() if k != lt]
                    if any(lf[1] == hdr for o in outs for _, lf in self.leaves(o)): continue
                    out = arm.get(0)
                    x = fresh("i")
                    r = self.seqloop(range_(inits[i], n), i, x, out, stay, {i: x}, phis, inits, base, cur, hdr, counter=(i, n))
                    if r is not None: return r
        return "opaque"
    def peel(self, ev, base, hdr, depth=4):
        """a loop that is known to stop after a few rounds: unrolled"""
        class Deep(Exception): pass
        n = [0]; memo = {}
        def go(env, d):
            key = frozenset((k, v.id if isinstance(v, T) else v) for k, v in env.items())
            r = memo.get(key)
            if r is None: r = memo[key] = go_(env, d)
            return r
        def go_(env, d):
            n[0] += 1
            if n[0] > max(12, depth): raise Deep()
            t = self.gated(self.expand_panic(ev(dict(env))), {})
            def f(lf):
                if lf[1] != hdr: return lf
                if d == 0: raise Deep()
                return go(lf[2], d - 1)
            return self.tmap(t, f)
        old = CAP[0]; CAP[0] = min(old, STEPS[0] + PEELSTEPS)
        try: return go(base, depth)
        except Deep: return "opaque"
        except Blowup:
            if old <= STEPS[0]: raise
            self.flags.add("loop-large"); return "opaque"
        finally: CAP[0] = old
    def focus(self, t, pset):
        """drop decisions with a single live arm"""
        while t is not None and t[0] == "br":
            live = [(k, x) for k, x in t[2] if x is not None and any(True for _ in self.leaves(x))]
            if len(live) == 1: t = live[0][1]
            else: return t
        return t
    def seqloop(self, W, it, x, a0, a1, m, phis, inits, base, cur, hdr, counter=None):
        if has_cell(W): return None
        accs = [p for p in phis if p is not it]
        def sb(t): return subst(t, m)
        itid = it.id
        if counter: 
            # exit value of the counter
            pass
        # body decisions and leaves in terms of x
        def conv(t):
            if t is None: return None
            if t[0] == "leaf": return t
            s = sb(t[1]); arms = t[2]
            if rf is not None and s.op == "cmp" and x.id in syms(s) and not any(k == "else" for k, _ in arms):
                arms = [(k, y) for k, y in arms if y is not None and range_ok(rf, s, k)]
                if len(arms) == 1: return conv(arms[0][1])
            return P(s, [(k, conv(y)) for k, y in arms])
        rf = range_facts(x, *W.a) if W.op == "range" else None
        a1 = conv(a1)
        lvs = list(self.leaves(a1))
        # decisions must not look at the iterator itself
        for path, lf in lvs:
            for s, _ in path:
                if itid in syms(s): return None
        accset = frozenset(p.id for p in accs)
        step = {}
        def stepterm(p):
            if p not in step:
                step[p] = self.tterm(a1, lambda lf: sb(self.stepval(cur, lf[2], p)) if lf[1] == hdr else BOT)
            return step[p]
        for p in accs:
            if itid in syms(stepterm(p)): return None
        brk = [lf for _, lf in lvs if lf[1] != hdr]
        xs = frozenset([x.id])
        # sequences updated in place, one index at a time
        pw = {}
        if W.op in ("range", "rev") and (W.op == "range" or W.a[0].op == "range"):
            R = W if W.op == "range" else W.a[0]
            cand = {p: pointwise(stepterm(p), p, x) for p in accs}
            cand = {p: eg for p, eg in cand.items() if eg is not None}
            while True:
                bad = [p for p, (e, g) in cand.items() if syms(subst(g, {mk("idx", q, x): sym("_") for q in cand})) & accset]
                if not bad: break
                for p in bad: del cand[p]
            if cand:
                if brk: return None
                back = {mk("idx", p, x): idx(inits[p], x) for p in cand}
                for p, (e, g) in cand.items():
                    I = inits[p]; lo, hi = R.a; g = subst(g, back)
                    whole = litval(lo) == 0 and hi is length(I)
                    part = I if whole else seg(I, lo, hi)
                    pr = fresh("pr")
                    m2 = {x: add(lo, proj(0, 0, pr)), e: proj(0, 1, pr)}
                    if x.id in syms(g): r = fmap_(enum_(part), close(seq([subst(g, m2)]), [pr]))
                    else: r = fmap_(part, close(seq([g]), [e]))
                    if not whole: r = on_cmp(lo, hi, cat(seg(I, lit(0), lo), r, seg(I, hi, length(I))), I, I)
                    pw[p] = r
                a1 = self.tmap_terms(a1, lambda t: subst(t, back))
                for p in accs:
                    if p not in pw: step[p] = subst(stepterm(p), back)
                osb0 = sb
                sb = lambda t: subst(osb0(t), back)
        # index-only use of a counted loop over a sequence
        if W.op == "range":
            W2 = self.reindex(W, x, a1, stepterm, [p for p in accs if p not in pw], brk, cur, sb)
            if W2 is not None:
                W, gm, xn = W2
                a1 = self.tmap_terms(a1, gm)
                for p in list(step): step[p] = gm(step[p])
                osb = sb
                sb = lambda t: gm(osb(t))
                x = xn; xs = frozenset([x.id])
        Wv = strip_eff(W)
        # final values of the accumulators when the loop completes
        fin = {}
        trace_p = cur["trace"] if cur["trace"] in accs else None
        if trace_p is None and has_eff(W):
            # pending effects although the body itself has none
            extra = eff_of(W)
        else: extra = None
        def deps(p, seen):
            if p in seen: return
            seen.append(p)
            st = stepterm(p)
            for q in accs:
                if q.id in syms(st): deps(q, seen)
        ok_ = [True]
        def final(p, WW=None):
            if p in pw: return pw[p]
            WW = W if WW is None else WW
            st = stepterm(p)
            stuff = strip_prefix(st, p)
            if stuff is NIL and p is trace_p: return cat(inits[p], eff_of(WW))
            if stuff is not None and not (syms(stuff) & accset):
                r = fmap_(WW if has_eff(WW) else WW, close(stuff, [x]))
                if has_eff(r): r = inline_eff(r) if p is trace_p else strip_eff(r)
                return cat(inits[p], r)
            stuff = strip_suffix(st, p)
            if stuff is not None and not (syms(stuff) & accset):
                return cat(fmap_(rev(strip_eff(WW)), close(stuff, [x])), inits[p])
            if not (syms(st) & accset):
                # last element's value
                lastv = case(uncons(strip_eff(WW)), [(0, inits[p]), (1, subst(st, {x: initlast(strip_eff(WW))[1]}))])
                return lastv
            mc = strip_mcat(st, p)
            if mc is not None and not (syms(mc[1]) & accset):
                return mcat(mc[0], cat(seq([inits[p]]), fmap_(strip_eff(WW), close(mc[1], [x]))))
            mc = strip_mcat(st, p, True)
            if mc is not None and not (syms(mc[1]) & accset):
                return mcat(mc[0], cat(fmap_(rev(strip_eff(WW)), close(mc[1], [x])), seq([inits[p]])))
            if st.op == "sum":
                d = add(st, p, -1)
                if d.op == "lit" and isinstance(d.a[1], int) and abs(d.a[1]) < 8:
                    r = inits[p]
                    for _ in range(abs(d.a[1])): r = add(r, length(strip_eff(WW)), 1 if d.a[1] > 0 else -1)
                    return r
            ds = []; deps(p, ds)
            lam = close(tup([stepterm(q) for q in ds]), [x] + ds)
            return proj(0, 0, fold_(strip_eff(WW), lam, [inits[q] for q in ds]))
        for p in accs: fin[p] = final(p)
        if not ok_[0]: return None
        finm = dict(fin)
        # value of the iterator itself after completion
        if counter: finm[it] = case(cmp(inits[it], counter[1]), [(-1, counter[1]), (0, counter[1]), (1, inits[it])])
        else: finm[it] = NIL
        def leaf_done(lf):
            e = {k: (subst(v, finm) if k != "panic" else v) for k, v in lf[2].items()}
            if extra is not None: e["trace"] = cat(e["trace"], extra)
            return L(lf[1], e)
        def sub_tree(t, mm, g):
            if t is None: return None
            if t[0] == "leaf": return g(t)
            s = subst(t[1], mm)
            arms = [(k, sub_tree(y, mm, g)) for k, y in t[2]]
            return pick(s, arms)
        def pick(s, arms):
            kk = keyof(s) if s.op != "case" else None
            if kk is not None:
                for k, y in arms:
                    if k == kk: return y
                for k, y in arms:
                    if k == "else": return y
                return None
            if s.op == "case":
                return P(s.a[0], [(k, pick(v, arms)) for k, v in s.a[1]])
            return P(s, arms)
        done = sub_tree(a0, finm, leaf_done) if a0 is not None else None
        if not brk: return done
        # early exits
        for path, lf in lvs:
            for s, _ in path:
                if syms(s) & accset: return None
        tgt = []
        for lf in brk:
            if not any(lf is y for y in tgt): tgt.append(lf)
        npos = len(tgt)
        def payload(lf):
            if lf[1] == hdr: return NONE
            j = [i for i, y in enumerate(tgt) if y is lf][0]
            return some(x if npos == 1 else con("brk", j, npos, [x]))
        lam = close(self.tterm(a1, payload), [x])
        F = first_(Wv, lam)
        def pref(p):
            # accumulator just before the breaking element
            st = stepterm(p); stuff = strip_prefix(st, p)
            if stuff is not None and not (syms(stuff) & accset):
                if p is trace_p and has_eff(W): return cat(inits[p], before_eff(W, lam, close(stuff, [x])))
                return cat(inits[p], before_(Wv, lam, close(stuff, [x])))
            if p is trace_p and has_eff(W): self.flags.add("eager")
            ds = []; deps(p, ds)
            return proj(0, 0, foldb_(Wv, lam, close(tup([stepterm(q) for q in ds]), [x] + ds), [inits[q] for q in ds]))
        prefm = {p: pref(p) for p in accs}
        if counter: prefm[it] = unk("counter")
        else:
            aft = after_(Wv, lam)
            if mk("last", it) in m: aft = rev(aft)
            prefm[it] = aft
        # the iterator's remainder as seen inside the body
        rest = {} if counter else {mk("tlx", it): aft}
        def exitenv(j, e):
            lf = tgt[j]; m_ = {**prefm, x: e}
            if counter: m_[it] = e
            out = {}
            for k, v in lf[2].items():
                out[k] = v if k == "panic" else subst(subst(sb(v), rest), m_)
            if extra is not None:
                t0 = cur["trace"]; ev_ = strip_prefix(out["trace"], t0)
                if ev_ is None: self.flags.add("eager")
                else: out["trace"] = cat(t0, before_eff(W, lam, close(NIL, [x])), ev_)
            return L(lf[1], out)
        def build(F):
            if F.op == "case": return P(F.a[0], [(k, build(v)) for k, v in F.a[1]])
            if F.op == "con":
                if F.a[1] == 0: return done
                return pickj(F.a[3])
            return P(discr(F), [(0, done), (1, pickj(proj(1, 0, F)))])
        def pickj(p):
            if npos == 1: return exitenv(0, p)
            if p.op == "case": return P(p.a[0], [(k, pickj(v)) for k, v in p.a[1]])
            if p.op == "con": return exitenv(p.a[1], p.a[3])
            if p.op == "bot": return None
            return P(discr(p), [(j, exitenv(j, proj(j, 0, p))) for j in range(npos)])
        return build(F)
    def tmap_terms(self, t, mm):
        if t is None: return None
        if t[0] == "leaf":
            return t
        return P(mm(t[1]), [(k, self.tmap_terms(y, mm)) for k, y in t[2]])
    def reindex(self, W, x, a1, stepterm, accs, brk, cur, sb):
        """for i in 0..len(xs) with xs[i]: iterate xs instead"""
        lo, hi = W.a
        if litval(lo) != 0: return None
        if hi.op != "len": return None
        base = hi.a[0]
        el = fresh("el")
        key = mk("idx", base, x)
        terms = [stepterm(p) for p in accs]
        def dec(t):
            if t is None or t[0] == "leaf": return
            terms.append(t[1])
            for _, y in t[2]: dec(y)
        dec(a1)
        for lf in brk:
            for v in lf[2].values():
                if isinstance(v, T): terms.append(sb(v))
        m1 = {key: el}
        left = set()
        for t in terms: left |= syms(subst(t, m1))
        if x.id not in left:
            return base, (lambda t: subst(t, m1)), el
        # index used too: enumerate
        pr = fresh("p")
        return enum_(base), (lambda t: subst(subst(t, m1), {x: proj(0, 0, pr), el: proj(0, 1, pr)})), pr
    def opaque(self, tree, phis, inits, base, cur, hdr):
        """a loop the domain cannot interpret: outputs are uninterpreted (non-rigid) functions of the loop's own canonical form"""
        self.flags.add("loop-opaque")
        keys = [k for k in cur if k != "panic"]
        exits = []
        for _, lf in self.leaves(tree):
            if lf[1] != hdr and lf[1] not in exits: exits.append(lf[1])
        written = []
        for _, lf in self.leaves(tree):
            if lf[1] == hdr: continue
            for k, v in lf[2].items():
                if k == "panic": continue
                if (k not in cur or v is not base.get(k)) and k not in written: written.append(k)
        def lt(lf):
            if lf[1] == hdr: return con("next", 0, 1, [self.stepval(cur, lf[2], p) for p in phis])
            return con("exit", 0, 1, [lit(exits.index(lf[1])) ] + [lf[2].get(k, BOT) for k in written])
        body = close(self.tterm(tree, lt), phis)
        ins = [inits[p] for p in phis]
        def leaf(j):
            e = dict(base)
            for n, k in enumerate(written): e[k] = mk("fn", "loopout%d" % n, False, body, *ins)
            for k in keys:
                if k not in written and cur[k] is not base[k]:
                    e[k] = mk("fn", "loopvar", False, body, *ins)
            return L(exits[j], e)
        if not exits: return None
        if len(exits) == 1: return leaf(0)
        s = mk("fn", "loopexit", False, body, *ins)
        return P(s, [(j, leaf(j)) for j in range(len(exits))])
    # ---- element-wise application (closures over sequences)
    def lam1(self, f, env, gate, nargs=1, arg=None):
        """evaluate f on a fresh element. -> (x, value, trace, pure?)"""
        x = fresh()
        e0 = dict(env); e0["trace"] = NIL; e0["panic"] = FALSE
        v, e1 = self.apply(f, [x] if arg is None else arg(x), e0, gate)
        pure = True
        for k, val in env.items():
            if k in ("trace", "panic"): continue
            if e1.get(k) is not val: pure = False; break
        tr = e1["trace"]; pn = e1["panic"]
        if pn is not FALSE:
            tr = cat(tr, case_bool(pn, seq([mk("ev", lit("panic"))]), NIL)) if pn is not TRUE else cat(tr, seq([mk("ev", lit("panic"))]))
            self.flags.add("lam-panic")
        return x, v, tr, pure
    def each(self, W, env, gate, step):
        """run step(x, env, gate) -> tree/ (env) for each element in order; returns env. step returns list tree with leaves 'next' or exits"""
        it = (self.newframe(), "it")
        V = view(W) if has_cell(W) else None
        if V is not None:
            lam, W = V; step0 = step
            step = lambda x, e, g: step0(opened(lam, [x]), e, g)
        elif has_cell(W): self.flags.add("iter_mut")
        env = dict(env); env[it] = W
        def ev(env0):
            w = env0[it]
            h, t = hdtl(w)
            u = uncons(w)
            env1 = dict(env0); env1[it] = t
            def mkarms(u):
                if u.op == "case": return P(u.a[0], [(k, mkarms(v)) for k, v in u.a[1]])
                kk = keyof(u)
                if kk == 0: return L("done", dict(env0))
                if kk == 1: return step(h, dict(env1), gate)
                return P(u, [(0, L("done", dict(env0))), (1, step(h, dict(env1), gate))])
            return mkarms(u)
        tree = self.summarise(env, ev, "next", gate=gate)
        def clean(lf):
            e = dict(lf[2]); e.pop(it, None); return L(lf[1], e)
        return self.tmap(tree, clean)
    betad = 0
    def beta(self, f, args):
        self.betad += 1
        try: v, e = self.apply(f, list(args), {"trace": NIL, "panic": FALSE}, {})
        finally: self.betad -= 1
        if e["panic"] is not FALSE: return None
        v = self.deref(v, e)
        if self.has_mref(v): return None
        return v, e["trace"]
    def apply(self, f, args, env, gate, once=False):
        """call an arbitrary callable value"""
        if f.op == "case" or (f.op == "mref" and False):
            return self.split(f, env, gate, lambda g, e, gt: self.apply(g, args, e, gt))
        tgt = self.deref(f, env)
        if tgt.op == "case":
            return self.split(tgt, env, gate, lambda g, e, gt: self.apply(g, args, e, gt))
        if tgt.op == "clo":
            prog = PROGS[tgt.a[0]]; i = tgt.a[1]
            body = prog.bodies[i]
            t1 = prog.types[body["locals"][1]]
            selfv = tgt
            if t1["k"] == "ref" and t1["mut"]:
                if f.op == "mref": selfv = f
                else: env = dict(env); selfv = self.slot(env, tgt)
            return self.call_inst(prog, i, [selfv] + list(args), env, gate)
        if tgt.op == "fndef":
            prog = PROGS[tgt.a[1]]
            c = prog.types[tgt.a[2]]["callee"]
            return self.call_callee(prog, c, list(args), env, gate, "", None)
        if tgt.op == "bot": return BOT, env
        vals = []
        for a in args:
            if a.op == "con" and a.a[0] == "()": vals.append(con("()", 0, 1, [self.deref(q, env) for q in a.a[3:]]))
            else: vals.append(self.deref(a, env))
        env = dict(env)
        env["trace"] = cat(env["trace"], seq([mk("ev", tgt, *vals)]))
        if any(self.has_mref(a) for a in args):
            for j, a in enumerate(args):
                if self.has_mref(a): self.write(a, mk("appout", j, tgt, *vals), env)
        return mk("app", tgt, *vals), env
    # ---- calls
    def call(self, fr, t, env, gate):
        self.sites += 1
        c = t[1]
        args = [self.op(fr, o, env) for o in t[2]]
        env = dict(env)
        if "dynop" in c:
            return self.apply(self.op(fr, c["dynop"], env), args, env, gate)
        return self.call_callee(fr.prog, c, args, env, gate, t[5], fr)
    def call_callee(self, prog, c, args, env, gate, span, fr):
        if "ctor" in c:
            adt, v = c["ctor"]
            n = 1
            return con(adt, v, self.nvariants(prog, adt, v), args), env
        sp = short(c["path"])
        info = Info(); info.prog = prog; info.c = c; info.span = span; info.fr = fr; info.path = c["path"]; info.short = sp
        if sp in ("FnOnce::call_once", "Fn::call", "FnMut::call_mut", "AsyncFn::async_call"):
            tu = self.deref(args[1], env)
            if tu.op == "con": xs = list(tu.a[3:])
            else:
                # symbolic tuple: arity from type
                ty = prog.types[c["targs"][1]]
                xs = [proj(0, i, tu) for i in range(len(ty.get("ts", [0])))]
            return self.apply(args[0], xs, env, gate)
        if "via" in c and c["via"] < len(prog.bodies): return self.call_inst(prog, c["via"], args[:1], env, gate)
        rp = c.get("rpath") or c["path"]
        if c.get("local") or "pvec" in rp:
            r = PVEC[0](self, info, rp, args, env)
            if r is not None: return r
        for key in (("R:" + rp), sp, short(rp)):
            m = MODELS.get(key)
            if m is not None:
                if getattr(m, "nonlocal_only", False) and "inst" in c and prog.bodies[c["inst"]].get("local"): continue
                if c.get("local") and "inst" in c and key != "R:" + rp and sp != "Future::poll" and not (sp == "Clone::clone" and not self.noclone and not prog.bodies[c["inst"]].get("hand")): continue
                if self.stateful and sp in PARTIAL: self.flags.add("stateful-closure")
                r = m(self, args, env, gate, info)
                if r is not None: return r
        if "inst" in c and c["inst"] < len(prog.bodies):
            return self.call_inst(prog, c["inst"], args, env, gate)
        return self.uninterp(prog, c, args, env)
    def nvariants(self, prog, adt, v):
        m = getattr(prog, "nv", None)
        if m is None:
            m = prog.nv = {t["path"]: len(t["vs"]) for t in prog.types if t and t["k"] == "adt"}
        if adt in m: return m[adt]
        if adt == OPT or adt == RES: return 2
        return v + 1
    def uninterp(self, prog, c, args, env):
        """free operation: trait method of a type parameter (rigid) or unmodelled external function"""
        k = c.get("kind")
        rigid = k == "unresolved"
        name = c["path"]
        if c.get("trait"): 
            ts = [prog.types[x]["s"] for x in c["targs"][:1]]
            name += "@" + ",".join(ts)
        vals = [self.deref(a, env) for a in args]
        if not rigid: self.unknown[name] = self.unknown.get(name, 0) + 1
        if any(x.op == "bot" for x in vals): return BOT, env
        if not rigid:
            self.flags.add("opaque-call")
            ks = [prog.types[x] for x in c.get("targs", [])]
            if any(has_callable(x) for x in vals) or any("{closure" in k.get("s", "") or k["k"] in ("closure", "fndef", "fnptr", "dyn") for k in ks) \
                    or any(x.op in ("sym", "proj") for x in vals) and any(k["k"] == "param" for k in ks):
                # it may call what it is given, any number of times
                env = dict(env)
                env["trace"] = cat(env["trace"], mk("fn", "calls:" + name, False, *vals))
        self.clobber(name, args, env)
        return mk("fn", name, rigid, *vals), env

def has_callable(x): return has_op(x, ("clo", "fndef"))
def has_op(x, ops):
    seen = set(); st = [x]
    while st:
        y = st.pop()
        if y.id in seen: continue
        seen.add(y.id)
        if y.op in ops: return True
        st.extend(kids(y))
    return False

def lnot(v):
    if v is TRUE: return FALSE
    if v is FALSE: return TRUE
    if v.op == "case": return case(v.a[0], [(k, lnot(x)) for k, x in v.a[1]])
    if v.op == "bot": return v
    if v.op == "lit" and v.a[0] == "int": return mk("fn", "not", False, v)
    return case(v, [(0, TRUE), (1, FALSE)])
def isbool(a, b):
    def f(x): return x in (TRUE, FALSE) or x.op == "app" or (x.op == "case" and any(f(y) for _, y in x.a[1])) or (x.op == "fn" and x.a[0] in ("eq",))
    return f(a) or f(b)
def case_bool(c, t, e):
    if c is TRUE: return t
    if c is FALSE: return e
    if c.op == "case": return case(c.a[0], [(k, case_bool(x, t, e)) for k, x in c.a[1]])
    return case(c, [(1, t), (0, e)])
def bor(a, b):
    if a is FALSE: return b
    if b is FALSE or a is TRUE: return a
    return case_bool(a, TRUE, b)
def binary(o, a, b):
    if a.op == "lit" and b.op == "lit" and a.a[0] == b.a[0] == "int":
        x, z = a.a[1], b.a[1]
        if o == "BitAnd": return lit(x & z)
        if o == "BitOr": return lit(x | z)
        if o == "BitXor": return lit(x ^ z)
        if o == "Shr" and z >= 0: return lit(x >> z)
        if o == "Shl" and 0 <= z < 64: return lit(x << z)
        if o in ("Div", "Rem") and z:
            q = abs(x) // abs(z) * (1 if (x < 0) == (z < 0) else -1)
            return lit(q if o == "Div" else x - q * z)
    return mk("fn", "bin:" + o, False, a, b)
for o_ in ("BitAnd", "BitOr", "BitXor", "Shr", "Shl", "Div", "Rem"): ALPHAS["bin:" + o_] = (lambda o: lambda a, b: binary(o, a, b))(o_)
def mul(a, b):
    if litval(a) is not None and litval(b) is not None: return lit(litval(a) * litval(b))
    if litval(a) == 0 or litval(b) == 0: return lit(0)
    if litval(a) == 1: return b
    if litval(b) == 1: return a
    if a.id > b.id: a, b = b, a
    return mk("fn", "mul", False, a, b)
ALPHAS["mul"] = mul
NVAR = {}   # number of variants of the type a discriminant was read from
def eqv(a, b, y, n):
    if a is b: return y
    if a.op == "lit" and b.op == "lit": return y if a.a[1] == b.a[1] else n
    for p, q in ((a, b), (b, a)):
        if p.op == "case": return case(p.a[0], [(k, eqv(x, q, y, n)) for k, x in p.a[1]])
    for p, q in ((a, b), (b, a)):
        if p.op == "discr" and q.op == "lit":
            k = NVAR.get(p.id)
            if k is not None and isinstance(q.a[1], int) and q.a[1] < k: return case(p, [(i, y if i == q.a[1] else n) for i in range(k)])
            return case(p, [(q.a[1], y), ("else", n)])
    if a.op == "discr" or b.op == "discr":
        if a.id > b.id: a, b = b, a
        return case(mk("fn", "eq", True, a, b), [(0, n), (1, y)])
    if is_num(a) or is_num(b): return on_cmp(a, b, n, y, n)
    if a.id > b.id: a, b = b, a
    return on_cmp(a, b, n, y, n)

def strip_prefix(st, p):
    if st is p: return NIL
    if st.op == "bot": return BOT
    if p is NIL: return st
    if p.op == "word" and st.op == "word" and len(p.a) > 1 and st.a[:len(p.a)] == p.a: return word(st.a[len(p.a):])
    if st.op == "case":
        arms = []
        for k, x in st.a[1]:
            y = strip_prefix(x, p)
            if y is None: return None
            arms.append((k, y))
        return case(st.a[0], arms)
    if st.op == "word" and st.a and st.a[0] is p:
        return word(st.a[1:])
    if st.op == "word" and st.a and st.a[0].op == "case":
        r = strip_prefix(st.a[0], p)
        if r is not None: return cat(r, word(st.a[1:]))
    return None
def strip_suffix(st, p):
    if st is p: return NIL
    if st.op == "bot": return BOT
    if st.op == "case":
        arms = []
        for k, x in st.a[1]:
            y = strip_suffix(x, p)
            if y is None: return None
            arms.append((k, y))
        return case(st.a[0], arms)
    if st.op == "word" and st.a and st.a[-1] is p:
        return word(st.a[:-1])
    return None
def strip_mcat(st, p, rt=False):
    if st.op == "case":
        op = None; arms = []
        for k, x in st.a[1]:
            if x.op == "bot": continue
            if x is p: arms.append((k, NIL)); continue
            r = strip_mcat(x, p, rt)
            if r is None or (op is not None and r[0] != op): return None
            op = r[0]; arms.append((k, r[1]))
        return (op, case(st.a[0], arms)) if op is not None else None
    if st.op == "mcat" and st.a[1].op == "word":
        ps = st.a[1].a
        if not rt and ps[0].op == "unit" and ps[0].a[0] is p: return st.a[0], word(ps[1:])
        if rt and ps[-1].op == "unit" and ps[-1].a[0] is p: return st.a[0], word(ps[:-1])
    return None
def inline_eff(w):
    if not has_eff(w): return w
    if w.op == "word": return cat(*[inline_eff(p) for p in w.a])
    if w.op == "unit": return w.a[0].a[0] if w.a[0].op == "effi" else w
    if w.op == "fmap":
        x = fresh()
        return fmap_(strip_eff(w.a[0]), close(inline_eff(opened(w.a[1], [x])), [x]))
    if w.op == "case": return case(w.a[0], [(k, inline_eff(x)) for k, x in w.a[1]])
    return w
def before_eff(w, lam, stuff):
    """before_, with the pending effects of the sequence where they happen"""
    if not has_eff(w): return before_(w, lam, stuff)
    if w.op == "case": return case(w.a[0], [(k, before_eff(x, lam, stuff)) for k, x in w.a[1]])
    if w.op == "unit": return w.a[0].a[0]
    def all_(q): return inline_eff(fmap_(q, stuff))
    if w.op == "word":
        p = w.a[0]; b = before_eff(p, lam, stuff)
        if len(w.a) == 1: return b
        return case(discr(first_(strip_eff(p), lam)), [(0, cat(all_(p), before_eff(word(w.a[1:]), lam, stuff))), (1, b)])
    if w.op == "fmap":
        x = fresh(); inner = opened(w.a[1], [x]); t = first_(strip_eff(inner), lam)
        F = first_(strip_eff(w.a[0]), close(case(discr(t), [(0, NONE), (1, some(x))]), [x]))
        head = before_eff(w.a[0], close(t, [x]), close(all_(inner), [x]))
        return case(discr(F), [(0, head), (1, cat(head, before_eff(opened(w.a[1], [some_payload(F)]), lam, stuff)))])
    return mk("unk", "before-eff", w, lam, stuff)
_hc = {}
def has_cell(w):
    """a sequence of mutable references"""
    r = _hc.get(w.id)
    if r is None: r = _hc[w.id] = w.op in ("mcell", "mref") or any(has_cell(k) for k in kids(w))
    return r
def view(w):
    """w as (element, generator): the elements as a function of those of a sequence of plain values"""
    if w.op == "case":
        vs = [(k, None if x is NIL or x.op == "bot" else view(x), x) for k, x in w.a[1]]
        ls = set(v[0].id for _, v, _ in vs if v is not None)
        if len(ls) == 1 and all(v is not None or x is NIL or x.op == "bot" for _, v, x in vs):
            return [v[0] for _, v, _ in vs if v is not None][0], case(w.a[0], [(k, x if v is None else v[1]) for k, v, x in vs])
        return None
    if w.op == "con" and w.a[0] == "$view": return w.a[3], w.a[4]
    if w.op == "word" and len(w.a) == 1 and w.a[0].op == "fmap" and not has_cell(w.a[0].a[0]) and not has_eff(w):
        s = single_body(w.a[0].a[1])
        if s is not None:
            x = fresh()
            return close(subst(s, {mk("bv", w.a[0].a[1].a[0], 0): x}), [x]), w.a[0].a[0]
    return None
def viewed(w):
    """an iterator value; views keep the shape of their elements through a loop"""
    if has_cell(w) and w.op in ("word", "case"):
        v = view(w)
        if v is not None: return con("$view", 0, 1, list(v))
    return w
def pointwise(st, p, x):
    """st = the sequence p with the element at x replaced by the result"""
    n = length(p)
    def go(t):
        if t is p: return mk("idx", p, x)
        if t.op == "bot": return t
        if t.op == "case":
            arms = []
            for k, y in t.a[1]:
                z = go(y)
                if z is None: return None
                arms.append((k, z))
            return case(t.a[0], arms)
        if t.op == "word":
            ps = [q for q in t.a]
            a, b = seg(p, lit(0), x), seg(p, add(x, lit(1)), n)
            if len(ps) == 3 and ps[0] is a and ps[2] is b and ps[1].op == "unit": return ps[1].a[0]
        return None
    g = go(st)
    if g is None: return None
    e = fresh("e")
    g = subst(g, {mk("idx", p, x): e})
    if p.id in syms(g): return None
    return e, g
