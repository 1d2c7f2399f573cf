"""Normal-form comparison of two summaries: EQ / NE(reason) / UNK."""
from terms import *
from eval import *

def inner_case(s):
    """a decision inside the operands of s whose own scrutinee contains none"""
    seen = set()
    def f(x):
        if x.id in seen: return None
        seen.add(x.id)
        if x.op in ("lam", "clo", "cor"): return None
        if x.op == "case":
            if x.h == 0: return f(x.a[0]) or x
            return None
        for k in kids(x):
            r = f(k)
            if r is not None: return r
    return f(s)

GATED = ("mcat", "fold", "first", "fn", "foldb", "cmp")
class Cmp:
    def __init__(self, ev, flow=False, budget=20000):
        self.ev = ev; self.flow = flow; self.n = 0; self.budget = budget
        self.reasons = []; self.depth = 0
    def gs(self, t, asm): return self.ev.gs(t, asm)
    def eq(self, a, b, asm, depth=0):
        """-> True / False / None(unknown)"""
        self.n += 1
        if self.n > self.budget: return None
        a = self.expand(self.gs(a, asm), asm); b = self.expand(self.gs(b, asm), asm)
        if a is b: return True
        if a.op == "bot" or b.op == "bot": return True  # infeasible under the gate
        if asm and (a in asm or b in asm):
            # a value the gate has decided (a condition that is also returned)
            x, y = (asm[t] if t in asm and not isinstance(asm[t], tuple) else keyof(t) if t.op == "lit" else None for t in (a, b))
            if x is not None and y is not None and x == y: return True
        s = None
        if a.op == "case": s = a
        elif b.op == "case": s = b
        if s is not None:
            return self.split(s.a[0], s, a, b, asm, depth, lambda x, y, m: self.eq(x, y, m, depth + 1))
        if depth > 60: return None
        if asm and (a.op in GATED or b.op in GATED):
            # normal forms that flatten: apply the gate's facts below the head first
            a2 = self.simp(a, asm); b2 = self.simp(b, asm)
            if a2 is not a or b2 is not b: return self.eq(a2, b2, asm, depth + 1)
        return self.head(a, b, asm, depth)
    def keys(self, s, a, b):
        ks = []
        for t in (a, b):
            if t.op == "case" and t.a[0] is s:
                for k, _ in t.a[1]:
                    if k != "else" and k not in ks: ks.append(k)
        els = False
        for t in (a, b):
            if t.op == "case" and t.a[0] is s and any(k == "else" for k, _ in t.a[1]): els = True
        return ks, els
    def split(self, s, t, a, b, asm, depth, f):
        if s in asm and not isinstance(asm[s], tuple): return None      # settled already, yet not resolved
        # order of scrutinees: resolve decisions nested inside the scrutinee itself
        s2 = self.resolve_scrut(s, asm)
        if s2 is not s:
            k = keyof(s2)
            if k is not None:
                return f(a, b, {**asm, s: k})
            if s2.op == "case":
                res = []
                for kk, x in s2.a[1]:
                    m = {**asm, s2.a[0]: gate_key(s2, kk)}
                    res.append(self.eq(a, b, m, depth + 1))
                return conj(res)
            kk = asm.get(s2)
            if kk is not None: return f(a, b, {**asm, s: kk})
        inner = inner_case(s2) if depth < 50 else None
        if inner is not None and inner.a[0] not in asm:
            res = []
            for kk, _ in inner.a[1]:
                m = {**asm, inner.a[0]: gate_key(inner, kk)}
                r = f(a, b, m); res.append(r)
                if r is False: return False
            return conj(res)
        ks, els = self.keys(s, a, b)
        res = []
        for k in ks:
            m = {**asm, s: k}
            if s2 is not s: m[s2] = k
            if s2.op in ("sum", "len"): m.update(empties(s2, k))
            if not feasible(s, k, m): continue
            r = f(a, b, m)
            res.append(r)
            if r is False: return False
        if els:
            res.append(f(a, b, {**asm, s: ("x", frozenset(ks))}))
        return conj(res)
    def resolve_scrut(self, s, asm):
        """scrutinee with the gate's facts applied below its head"""
        if not asm: return s
        r = self.gs(self.simp(s, asm), asm)
        if r.op == "case" and r.a[0] is s: return s
        return r
    def simp(self, t, asm):
        memo = {}
        def f(x):
            r = memo.get(x.id)
            if r is not None: return r
            if x.op in ("sym", "lit", "bv", "fndef", "lam"): r = x
            elif x.op == "case":
                y = self.gs(x, asm)
                r = f(y) if y is not x else rebuild(x, f)
            else:
                r = rebuild(x, f)
            memo[x.id] = r
            return r
        return f(t)
    def mentions(self, t, asm):
        """does t contain a decision the gate settles?"""
        memo = {}
        def f(x):
            r = memo.get(x.id)
            if r is None:
                memo[x.id] = False
                r = x.op == "case" and x.a[0] in asm or any(f(k) for k in kids(x))
                memo[x.id] = r
            return r
        return f(t)
    def expand(self, t, asm):
        return t
    def note(self, a, b, asm):
        if not self.rigid(a) or not self.rigid(b) or not all(self.rigid(s) for s in asm): return None
        c = consistent(asm)
        if c is False: return True      # the gate cannot be taken
        if c is None: return None
        if any(has_inner(k) for k in asm):
            # decisions made inside the gate's own scrutinees: settle them first
            m = {}
            for k, v in asm.items():
                if has_inner(k):
                    k2 = self.gs(self.simp(k, {x: y for x, y in asm.items() if x is not k}), asm)
                    kk = keyof(k2)
                    if kk is not None and not isinstance(v, tuple):
                        if kk != v: return True
                        continue
                    if has_inner(k2) or k2.op == "case": return None
                    k = k2
                if k in m and m[k] != v and not isinstance(v, tuple) and not isinstance(m[k], tuple): return True
                m[k] = v
            c = consistent(m)
            if c is not True: return True if c is False else None
        if len(self.reasons) < 4:
            self.reasons.append((a, b, dict(asm)))
        return False
    def rigid(self, t): return t.rig
    def head(self, a, b, asm, d):
        if a is ZST or b is ZST: return True
        for x, y in ((a, b), (b, a)):
            if x.op == "clo" or x.op == "fndef" or x.op == "cor": return self.callables(a, b, asm, d)
        if a.op == "con" or b.op == "con":
            x, y = (a, b) if a.op == "con" else (b, a)
            if y.op == "con":
                if x.a[1] != y.a[1] or x.a[0] != y.a[0] or len(x.a) != len(y.a):
                    return self.note(a, b, asm)
                return conj([self.eq(p, q, asm, d + 1) for p, q in zip(x.a[3:], y.a[3:])])
            if x.a[2] == 1 and y.op in ("sym", "proj", "app", "hd", "last", "idx", "upd", "bv", "appout", "fn"):
                if y.op == "fn" and not y.rig: return None
                return conj([self.eq(p, proj(x.a[1], i, y), asm, d + 1) for i, p in enumerate(x.a[3:])])
            k = self.known(discr(y), asm)
            if k is not None and not isinstance(k, tuple):
                if k != x.a[1]: return self.note(a, b, asm)
                return conj([self.eq(p, proj(x.a[1], i, y), asm, d + 1) for i, p in enumerate(x.a[3:])])
            if y.op in ("sym", "proj", "app", "hd", "idx", "last", "bv", "first", "fn"):
                # split on y's variant
                s = discr(y)
                if s in asm: return None
                ok = self.eq(a, b, {**asm, s: x.a[1]}, d + 1)
                if ok is False: return False
                # another variant is possible: the values differ there
                r = self.note(a, b, {**asm, s: "other-variant"} if False else asm)
                return r if ok is not None or r is None else None
            return None
        if a.op == "upd" or b.op == "upd":
            x, y = (a, b) if a.op == "upd" else (b, a)
            # struct update: compare the written field and the base
            r1 = self.eq(x.a[3], proj(x.a[1], x.a[2], y), asm, d + 1)
            yb = upd(y, x.a[1], x.a[2], ZST) if y.op == "upd" else y
            r2 = self.eq(x.a[0], strip_upd(y, x.a[1], x.a[2]), asm, d + 1)
            return conj([r1, r2])
        if seqlike(a) or seqlike(b): return self.words(parts_of(a), parts_of(b), asm, d)
        if a.op == "lit" and b.op == "lit":
            if "bool" in (a.a[0], b.a[0]) and a.a[1] in (0, 1) and b.a[1] in (0, 1) and a.a[1] == b.a[1]: return True  # a gate written as its scrutinee
            return self.note(a, b, asm)
        if a.op == b.op:
            if a.op in ("app", "ev"):
                if len(a.a) == len(b.a):
                    rs = [self.eq(p, q, asm, d + 1) for p, q in zip(a.a, b.a)]
                    r = conj(rs)
                    return r
                return self.note(a, b, asm)
            if a.op == "proj":
                if a.a[0] == b.a[0] and a.a[1] == b.a[1]: 
                    return self.eq(a.a[2], b.a[2], asm, d + 1)
                return self.note(a, b, asm)
            if a.op in ("hd", "last", "tl", "init", "len", "rev", "enum", "discr", "await"):
                return self.eq(a.a[0], b.a[0], asm, d + 1)
            if a.op == "mcat":
                if a.a[0] != b.a[0]: return self.note(a, b, asm)
                return self.eq(a.a[1], b.a[1], asm, d + 1)
            if a.op == "fn":
                if a.a[0] == b.a[0] and len(a.a) == len(b.a):
                    r = conj([self.eq(p, q, asm, d + 1) for p, q in zip(a.a[2:], b.a[2:])])
                    if r is False and not (a.a[1] and a.rig and b.rig): return None
                    return r
                if a.a[1] and b.a[1]: return self.note(a, b, asm)
                return None
            if a.op == "first":
                r1 = self.eq(a.a[0], b.a[0], asm, d + 1); r2 = self.lams(a.a[1], b.a[1], asm, d)
                if r1 is True and r2 is True: return True
                if r1 is True and r2 is False or r1 is False and r2 is True: return False
                return None
            if a.op == "fold" and len(a.a) == len(b.a):
                rs = [self.eq(a.a[0], b.a[0], asm, d + 1), self.lams(a.a[1], b.a[1], asm, d)] + [self.eq(p, q, asm, d + 1) for p, q in zip(a.a[2:], b.a[2:])]
                if all(r is True for r in rs): return True
                if rs.count(False) == 1 and rs.count(True) == len(rs) - 1: return False
                return None
            if a.op == "sym": return self.note(a, b, asm)
            if a.op == "idx":
                return conj([self.eq(a.a[0], b.a[0], asm, d + 1), self.eq(a.a[1], b.a[1], asm, d + 1)])
            if a.op == "lam": return self.lams(a, b, asm, d)
            if a.op == "unk": return None
            if a.op == "sum":
                return None
            return self.note(a, b, asm) if a.op in ("appout",) else None
        # different heads
        free = ("sym", "app", "proj", "hd", "last", "lit", "bv", "mcat", "ev", "appout", "idx")
        def okh(x): return x.op in free or (x.op == "fn" and x.a[1])
        # under equality facts
        if okh(a) and okh(b):
            return self.note(a, b, asm)
        if a.op in ("fold", "first") and (b.op in ("sym",)): return self.note(a, b, asm)
        return None
    def known(self, s, asm):
        k = keyof(s) if s.op != "case" else None
        if k is None: k = asm.get(s)
        return k
    def lams(self, l1, l2, asm, d):
        if l1 is l2: return True
        b1 = bound(l1); b2 = bound(l2)
        n = max([b.a[1] for b in b1 + b2] + [0]) + 1
        fr = [fresh("c") for _ in range(n)]
        return self.eq(opened(l1, fr), opened(l2, fr), asm, d + 1)
    def callables(self, a, b, asm, d):
        if d > 40: return None
        def arity(x):
            if x.op in ("clo",):
                return PROGS[x.a[0]].bodies[x.a[1]]["nargs"] - 1
            if x.op == "cor": return "await"
            if x.op == "fndef":
                c = PROGS[x.a[1]].types[x.a[2]]["callee"]
                if "inst" in c: return PROGS[x.a[1]].bodies[c["inst"]]["nargs"]
                if "ctor" in c: return None
            return None
        if a.op == "fndef" and b.op == "fndef" and a.a[0] == b.a[0] and ("trait" not in PROGS[a.a[1]].types[a.a[2]]["callee"]): return True
        n = arity(a)
        if n is None: n = arity(b)
        if n is None:
            if a.op == "fndef" and b.op == "fndef" : n = 1
            else: return None
        e0 = {"trace": NIL, "panic": FALSE}
        try:
            if n == "await":
                from models import await_
                v1, e1 = await_(self.ev, a, dict(e0), asm); v2, e2 = await_(self.ev, b, dict(e0), asm)
            else:
                args = [fresh("arg") for _ in range(n)]
                env1 = dict(e0); env2 = dict(e0)
                v1, e1 = self.ev.apply(a, self.mkargs(a, b, args, env1), env1, asm)
                v2, e2 = self.ev.apply(b, self.mkargs(a, b, args, env2), env2, asm)
        except Budget: return None
        return self.outcome((v1, e1), (v2, e2), asm, d + 1)
    def mkargs(self, a, b, args, env):
        """&mut parameters become slots"""
        out = []
        for i, x in enumerate(args):
            mut = False
            for c in (a, b):
                if c.op == "clo":
                    p = PROGS[c.a[0]]; t = p.types[p.bodies[c.a[1]]["locals"][2 + i]]
                    if t["k"] == "ref" and t["mut"]: mut = True
            out.append(self.ev.slot(env, x) if mut else x)
        return out
    def outcome(self, r1, r2, asm, d):
        v1, e1 = r1; v2, e2 = r2
        p = self.eq(e1["panic"], e2["panic"], asm, d)
        # an operation outside the model may itself panic, or never
        if p is False and "opaque-call" in self.ev.flags: p = None
        if p is False: return False
        def vals(a, b, m):
            return self.eq(v1, v2, m, d)
        # values matter only where neither side panics
        pn = e1["panic"]
        r = self.under(pn, asm, lambda m: self.eq(v1, v2, m, d))
        rs = [p, r]
        if self.flow:
            q = self.under(pn, asm, lambda m: self.eq(e1["trace"], e2["trace"], m, d))
            rs.append(None if "eager" in self.ev.flags else q)
        return conj(rs)
    def under(self, pn, asm, f):
        pn = self.gs(pn, asm)
        if pn is FALSE: return f(asm)
        if pn is TRUE: return True
        if pn.op == "case":
            return conj([self.under(x, {**asm, pn.a[0]: gate_key(pn, k)}, f) for k, x in pn.a[1]])
        return f({**asm, pn: 0})
    # ---- words
    def words(self, p, q, asm, d):
        p = self.wsimp(p, asm); q = self.wsimp(q, asm)
        # resolve a gated part by splitting
        for side in (p, q):
            for x in side:
                if x.op == "case":
                    arms = []
                    s = x.a[0]
                    res = []
                    s2 = self.resolve_scrut(s, asm)
                    if s2 is not s:
                        k = keyof(s2) if s2.op != "case" else None
                        if k is None: k = asm.get(s2)
                        if k is not None:
                            return self.words(p, q, {**asm, s: k}, d + 1)
                        if s2.op == "case":
                            return conj([self.words(p, q, {**asm, s2.a[0]: gate_key(s2, kk)}, d + 1) for kk, _ in s2.a[1]])
                    for k, _ in x.a[1]:
                        m = {**asm, s: gate_key(x, k)}
                        if s in asm and not compat(asm[s], k): continue
                        if s2 is not s: m[s2] = gate_key(x, k)
                        r = self.words(p, q, m, d + 1)
                        if r is False: return False
                        res.append(r)
                    return conj(res)
        i = 0
        while i < len(p) and i < len(q) and self.peq(p[i], q[i], asm, d) is True: i += 1
        p, q = p[i:], q[i:]
        while p and q and self.peq(p[-1], q[-1], asm, d) is True: p.pop(); q.pop()
        if not p and not q: return True
        # emptiness split of generators when one side is units only / empty
        if not p or not q:
            r = p or q
            # all letters of r must be empty
            if any(x.op == "unit" for x in r): return self.note(word(p), word(q), asm)
            rs = []
            for x in r:
                u = uncons(x)
                k = self.known(u, asm)
                if k == 0: rs.append(True); continue
                if u.op == "uncons" and consistent({**asm, u: 1}) is False: rs.append(True)
                elif u.op in ("uncons", "case") : rs.append(self.note(word(p), word(q), {**asm, u: 1} if u.op == "uncons" else asm) if x.rig else None)
                else: rs.append(None)
            return conj(rs)
        # one side has everything the other has, and more
        for a, b in ((p, q), (q, p)):
            rest = list(b)
            for x in a:
                j = next((i for i, y in enumerate(rest) if y is x), None)
                if j is None: break
                rest.pop(j)
            else:
                if any(x.op == "unit" or x.op == "lit" and x.a[0] == "str" and x.a[1] for x in rest): return self.note(word(p), word(q), asm)
        # one generator split into head and tail somewhere
        for a, b in ((p, q), (q, p)):
            for side, u in (("f", 0), ("b", -1)):
                g = a[u]; o = b[u]
                if g.op == "unit" or o.op != "unit": continue
                base = gen_base(g)
                if base is None: continue
                un = uncons(base)
                k = self.known(un, asm)
                if un.op != "uncons" and un.op != "lit": continue
                if k is None:
                    # try both
                    if self.usesends(o, base) or self.usesends(word(b), base):
                        return conj([self.words(list(p), list(q), {**asm, un: kk}, d + 1) for kk in (0, 1)])
                    continue
                if k == 1 and (self.usesends(word(b), base)):
                    if side == "f":
                        h, t = mk("hd", base), mk("tl", base)
                        ng = [unit(h), t]
                        ng = parts_of(fmap_(mk("word", unit(h), t), g.a[1])) if g.op == "fmap" else ng
                        a2 = ng + a[1:]
                    else:
                        l, t = mk("last", base), mk("init", base)
                        ng = [t, unit(l)]
                        ng = parts_of(fmap_(mk("word", t, unit(l)), g.a[1])) if g.op == "fmap" else ng
                        a2 = a[:-1] + ng
                    return self.words(a2, list(b), asm, d + 1) if a is p else self.words(list(b), a2, asm, d + 1)
        if len(p) == 1 and len(q) == 1:
            return self.peq(p[0], q[0], asm, d, report=True)
        # rigid mismatch in a free monoid
        x = self.peq(p[0], q[0], asm, d); y = self.peq(p[-1], q[-1], asm, d)
        simple = all(z.op in ("unit", "sym", "proj", "app", "fmap", "lit", "bv", "rev") and z.rig for z in p + q)
        if simple and all(s.rig for s in asm):
            if x is False or y is False: return self.note(word(p), word(q), asm)
        return None
    def usesends(self, t, base):
        seen = set()
        def go(x):
            if x.id in seen: return False
            seen.add(x.id)
            if x.op in ("hd", "tl", "last", "init") and x.a[0] is base: return True
            return any(go(k) for k in kids(x))
        return go(t)
    def wsimp(self, ps, asm):
        out = []
        ch = False
        for x in ps:
            y = self.gs(x, asm)
            if asm and y.op != "word" and self.mentions(y, asm): y = self.simp(y, asm)
            if y is not x: ch = True
            # generators known to be empty
            if y.op not in ("unit", "case", "word"):
                b = gen_base(y)
                u = uncons(b) if b is not None else None
                if u is not None and u.op != "case" and self.known(u, asm) == 0:
                    ch = True; continue
            if y is not x: out.extend(self.wsimp(parts_of(y), asm))
            else: out.append(y)
        if ch: return parts_of(word(out))
        return out
    def peq(self, x, y, asm, d, report=False):
        if x is y: return True
        n0 = len(self.reasons)
        if x.op == "unit" and y.op == "unit": r = self.eq(x.a[0], y.a[0], asm, d + 1)
        elif x.op == "fmap" and y.op == "fmap":
            r1 = self.eq(x.a[0], y.a[0], asm, d + 1); r2 = self.lams(x.a[1], y.a[1], asm, d)
            if r1 is True and r2 is True: r = True
            elif (r1 is True and r2 is False) or (r1 is False and r2 is True): r = False
            else: r = None
        elif x.op == "fmap" or y.op == "fmap":
            f, o = (x, y) if x.op == "fmap" else (y, x)
            # for(xs: body) against a generator / unit
            if o.op == "unit":
                r = self.note(x, y, asm)
            elif f.a[0] is o:
                # body must be the identity word
                e = fresh("c")
                r = self.eq(opened(f.a[1], [e]), seq([e]), asm, d + 1)
            elif o.op in ("sym", "proj", "app") : r = self.note(x, y, asm)
            else: r = None
        elif x.op == "unit" or y.op == "unit": 
            o = y if x.op == "unit" else x
            r = self.note(x, y, asm) if o.op in ("sym", "proj", "app", "rev") else None
        elif seqlike(x) and not seqlike(y) or seqlike(y) and not seqlike(x):
            r = self.note(x, y, asm) if (x.op in ("rev",) or y.op in ("rev",)) and x.rig and y.rig else None
        elif x.op in ("tl", "init", "seg", "enum", "zip", "range", "chunks", "sort") or y.op in ("tl", "init", "seg", "enum", "zip", "range", "chunks", "sort"):
            if x.op == y.op and len(x.a) == len(y.a):
                r = conj([self.eq(u, v, asm, d + 1) for u, v in zip(x.a, y.a)])
                if r is False: r = False if x.op in ("tl", "init", "enum") else None
            else: r = None
        else: r = self.eq(x, y, asm, d + 1)
        if r is not False or not report: 
            if r is not False: del self.reasons[n0:]
        return r

def strip_upd(y, v, i):
    if y.op == "upd":
        if y.a[1] == v and y.a[2] == i: return y.a[0]
        return upd(strip_upd(y.a[0], v, i), y.a[1], y.a[2], y.a[3])
    return y
def gen_base(g):
    if g.op == "fmap": return g.a[0] if single_body(g.a[1]) is not None else None
    return g
def seqlike(t): return t.op in ("word", "rev", "tl", "init", "seg", "enum", "range", "zip", "chunks", "sort") or t.op in ("before", "after")
def compat(known, k):
    if isinstance(known, tuple): return k == "else" or k not in known[1]
    return k == "else" or k == known
_inner = {}
def has_inner(s):
    r = _inner.get(s.id)
    if r is None: r = _inner[s.id] = inner_case(s) is not None
    return r
def conj(rs):
    if any(r is False for r in rs): return False
    if any(r is None for r in rs): return None
    return True
def feasible(s, k, m):
    """facts about order and emptiness can rule an arm out"""
    if s.op == "cmp":
        b = bounds(s.a[0], m), bounds(s.a[1], m)
        (l0, h0), (l1, h1) = b
        if k in (-1, 0) and l0 is not None and h1 is not None and (l0 > h1 or k == -1 and l0 >= h1): return False
        if k in (1, 0) and h0 is not None and l1 is not None and (h0 < l1 or k == 1 and h0 <= l1): return False
    if s.op == "cmp" or s.op == "uncons" and any(x.op == "cmp" for x in m): return consistent(m) is not False
    return True

def bounds(t, m):
    """interval of an integer term, from the emptiness facts about the words whose length it mentions"""
    if t.op == "lit" and t.a[0] == "int": return t.a[1], t.a[1]
    if t.op == "len":
        k = m.get(uncons(t.a[0]))
        return (0, 0) if k == 0 else (1, None) if k == 1 else (0, None)
    if t.op == "fn" and t.a[0] == "mul":
        (l0, h0), (l1, h1) = bounds(t.a[2], m), bounds(t.a[3], m)
        if l0 is None or l1 is None or l0 < 0 or l1 < 0: return None, None
        return l0 * l1, None if h0 is None or h1 is None else h0 * h1
    if t.op == "sum":
        lo, hi = t.a[0], t.a[0]
        for kx in t.a[1:]:
            c = kx.a[0]; l, h = bounds(kx.a[1], m)
            if c < 0: l, h = h, l
            lo = None if lo is None or l is None else lo + c * l
            hi = None if hi is None or h is None else hi + c * h
        return lo, hi
    return None, None

def parts_sum(t):
    """an integer term as (constant, [(coefficient, atom)])"""
    if t.op == "sum": return t.a[0], [(kx.a[0], kx.a[1]) for kx in t.a[1:]]
    return 0, [(1, t)]
def empties(s, k):
    """the words that are empty when the sum of lengths s is k"""
    c, ps = parts_sum(s)
    if not isinstance(k, int) or any(q <= 0 or x.op != "len" for q, x in ps) or k != c: return {}
    us = [uncons(x.a[0]) for _, x in ps]
    return {u: 0 for u in us if u.op == "uncons"}
def diffterm(t):
    """t as (base or None, constant)"""
    if t.op == "lit" and t.a[0] == "int": return None, t.a[1]
    if t.op == "sum":
        if len(t.a) == 2 and t.a[1].a[0] == 1: return t.a[1].a[1], t.a[0]
        return None
    return t, 0
def derived(s):
    """a decision about a search whose test compares positions: not free, and not expressible as order facts"""
    r = _derived.get(s.id)
    if r is None:
        def go(x, inb):
            if inb and x.op == "cmp" and bvs(x) and any(k.op in ("len", "sum", "lit") for k in x.a): return True
            return any(go(k, inb or x.op in ("first",)) for k in kids(x))
        r = _derived[s.id] = s.op in ("discr", "proj", "first") and go(s, False)
    return r
_derived = {}
def consistent(asm):
    """are the order / equality / emptiness facts of a gate consistent? True / False / None (not expressible)
    difference-bound constraints x - y <= c over integers and opaque ordered values"""
    facts = [(s, k) for s, k in asm.items() if s.op in ("cmp", "uncons", "sum", "len") or (s.op == "fn" and s.a[0] == "eq")]
    if any(derived(s) for s in asm):
        if consistent({s: k for s, k in asm.items() if not derived(s)}) is False: return False
        return None
    texts = [s for s in asm if s.op == "fn" and str(s.a[0]).startswith("text:")]
    for s in texts:
        # several facts about one text may exclude each other
        if any(t is not s and s.a[2] in kids(t) for t in asm): return None
    if not any(s.op in ("cmp", "fn", "sum", "len") for s, _ in facts): return True
    E = {}   # (x, y) -> c meaning x - y <= c
    nodes = set(); unk = False
    def le(x, y, c):
        nodes.add(x); nodes.add(y)
        if (x, y) not in E or E[(x, y)] > c: E[(x, y)] = c
    neq = []; sums = []
    for s, k in facts:
        if s.op == "cmp":
            a, b = diffterm(s.a[0]), diffterm(s.a[1])
            if a is None or b is None: unk = True; continue
            (x, cx), (y, cy) = a, b
            # x + cx ? y + cy
            ks = [k] if not isinstance(k, tuple) else [j for j in (-1, 0, 1) if j not in k[1]]
            if ks == [-1]: le(x, y, cy - cx - 1)
            elif ks == [1]: le(y, x, cx - cy - 1)
            elif ks == [0]: le(x, y, cy - cx); le(y, x, cx - cy)
            elif set(ks) == {-1, 0}: le(x, y, cy - cx)
            elif set(ks) == {0, 1}: le(y, x, cx - cy)
            elif set(ks) == {-1, 1}: neq.append((x, y, cy - cx))
            elif not ks: return False
        elif s.op == "uncons":
            n = length(s.a[0]); d = diffterm(n)
            if d is None: continue
            x, c = d
            if k == 0: le(x, None, -c); le(None, x, c)
            elif k == 1: le(None, x, c - 1)
        elif s.op in ("sum", "len"):
            d = diffterm(s)
            if d is None: sums.append((s, k)); continue
            x, c = d
            if not isinstance(k, tuple): le(x, None, k - c); le(None, x, c - k)
            else:
                for j in sorted(k[1]): neq.append((x, None, j - c))
                nodes.add(x); nodes.add(None)
        else:
            x, y = s.a[2], s.a[3]
            if k == 1: le(x, y, 0); le(y, x, 0)
            elif k == 0: neq.append((x, y, 0))
    for s, k in sums:
        c, ps = parts_sum(s)
        if any(q <= 0 or x.op != "len" for q, x in ps): unk = True; continue
        for _, x in ps: nodes.add(x)
        if not isinstance(k, tuple):
            if k < c: return False
            if k == c:
                for _, x in ps: le(x, None, 0)
            elif any(q > 1 for q, _ in ps): unk = True
    for x in list(nodes):
        if x is None: continue
        if x.op == "len": le(None, x, 0)
        if x.op == "fn" and x.a[0] == "mul":
            lo, hi = bounds(x, asm)
            if lo is not None: le(None, x, -lo)
        if x.op == "fn" and x.a[0] == "hint_lo":
            le(None, x, 0); d = diffterm(length(x.a[2]))
            if d is not None: le(x, d[0], d[1])
        elif x.op == "proj" and x.a[2].op == "fn" and x.a[2].a[0] == "hint_hi":
            d = diffterm(length(x.a[2].a[2]))
            if d is not None: le(d[0], x, -d[1])
    ns = list(nodes)
    D = {}
    for x in ns:
        for y in ns: D[(x, y)] = 0 if x is y else E.get((x, y), None)
    for (x, y), c in E.items():
        if x is y and c < 0: return False
    for m in ns:
        for x in ns:
            a = D[(x, m)]
            if a is None: continue
            for y in ns:
                b = D[(m, y)]
                if b is None: continue
                if D[(x, y)] is None or D[(x, y)] > a + b: D[(x, y)] = a + b
    for x in ns:
        if D[(x, x)] < 0: return False
    for x, y, c in neq:
        if x is y and c == 0: return False
        if x in nodes and y in nodes and D.get((x, y)) is not None and D.get((y, x)) is not None and D[(x, y)] <= c and D[(y, x)] <= -c: return False
    for s, k in sums:
        c, ps = parts_sum(s)
        if any(q <= 0 or x.op != "len" for q, x in ps): continue
        lo = c; hi = c
        for q, x in ps:
            l = D.get((None, x)); h = D.get((x, None))
            lo += 0 if l is None else q * max(0, -l)
            hi = None if hi is None or h is None else hi + q * h
        if isinstance(k, tuple):
            if lo == hi and lo in k[1]: return False
        elif k < lo or hi is not None and k > hi: return False
    # several facts about overlapping sums are not decided here
    if len(sums) > 1 and len({x.id for s, _ in sums for _, x in parts_sum(s)[1]}) < sum(len(parts_sum(s)[1]) for s, _ in sums): unk = True
    return None if unk else True

import terms
terms.CONSISTENT[0] = consistent
# ---- refutation at an instance: sequences replaced by short words of fresh letters
SEQOPS = {"fmap": 0, "first": 0, "fold": 0, "uncons": 0, "hd": 0, "tl": 0, "last": 0, "init": 0, "rev": 0, "len": 0, "enum": 0, "idx": 0, "seg": 0, "zip": None, "chunks": 0, "sort": 0, "before": 0, "after": 0, "foldb": 0}
def generators(ts):
    """closed atoms used as sequences"""
    out = []; seen = set()
    bare = {}                      # value used whole -> the variants it can have there (None: any)
    budget = [40000]
    def atom(x):
        if x.op in ("sym", "app", "fn") or x.op == "proj":
            if not bvs(x) and x.rig and x not in out: out.append(x)
    def go(x, ctx):
        if (x.id, ctx) in seen: return
        seen.add((x.id, ctx)); budget[0] -= 1
        if budget[0] < 0: ctx = frozenset()
        if x.op == "word":
            for p in x.a:
                if p.op not in ("unit", "fmap"): atom(p)
        elif x.op == "mcat": atom(x.a[1])
        elif x.op in SEQOPS:
            for k in (x.a if SEQOPS[x.op] is None else x.a[:1]):
                if isinstance(k, T): atom(k)
        if x.op in ("discr", "proj", "sym"):
            # a projection chain does not expose the root
            if x.op != "discr":
                v = dict(ctx).get(x)
                if v is None or x in bare and bare[x] is None: bare[x] = None
                else: bare.setdefault(x, set()).add(v)
            y = x
            while y.op in ("proj", "discr"): y = y.a[0] if y.op == "discr" else y.a[2]
            if y.op != "sym": go(y, ctx)
            return
        if x.op == "case" and x.a[0].op == "discr":
            go(x.a[0], ctx); s0 = x.a[0].a[0]
            for k, y in x.a[1]:
                go(y, ctx | {(s0, k)} if isinstance(k, int) and s0.op in ("sym", "proj") and dict(ctx).get(s0) is None else ctx)
            return
        for k in kids(x): go(k, ctx)
    for t in ts: go(t, frozenset())
    def okroot(x):
        if x.op == "proj":
            y = x
            while y.op == "proj":
                v, y = y.a[0], y.a[2]
                if y in bare and (bare[y] is None or v in bare[y]): return False
            return y.op == "sym"
        return True
    return [x for x in out if okroot(x)]
def numerals(ts):
    """closed atoms used as integers: range bounds, indices, operands of integer order tests and sums"""
    out = []; seen = set()
    def atom(x):
        if x.op in ("sym", "app", "fn", "proj") and not bvs(x) and x.rig and x not in out: out.append(x)
    def go(x):
        if x.id in seen: return
        seen.add(x.id)
        if x.op == "range":
            for k in x.a: atom(k)
        elif x.op == "sum":
            for k in x.a[1:]: atom(k.a[1])
        elif x.op in ("idx", "chunks"): atom(x.a[1])
        elif x.op == "seg": atom(x.a[1]); atom(x.a[2])
        elif x.op == "cmp" and (is_num(x.a[0]) or is_num(x.a[1])):
            atom(x.a[0]); atom(x.a[1])
        for k in kids(x): go(k)
    for t in ts: go(t)
    return out
def instance(ts, sizes, nums=(1,), rounds=4):
    """ts with every closed generator replaced by a word of fresh letters (lengths cycle through sizes)
    and every closed integer by a literal (cycling through nums); [(atom, value)]"""
    inst = []; gi = 0; ni = 0
    for _ in range(rounds):
        gs = generators(ts); ns = numerals(ts)
        al = gs + [n for n in ns if n not in gs]
        # innermost first: an atom must not contain another
        al = [g for g in al if not any(h is not g and contains(g, h) for h in al)]
        if not al: break
        m = {}
        for g in al[:6]:
            if g in ns: w = lit(nums[ni % len(nums)]); ni += 1
            else: w = seq([fresh(show(g)[:20]) for _ in range(sizes[gi % len(sizes)])]); gi += 1
            m[g] = w; inst.append((g, w))
        ts = [subst(t, m) for t in ts]
    return ts, inst
def contains(t, s):
    seen = set()
    def go(x):
        if x is s: return True
        if x.id in seen: return False
        seen.add(x.id)
        return any(go(k) for k in kids(x))
    return go(t)

# ---- free facts: what the program can observe of identities and layouts (two shared values being one
# object, a small vector being spilled). Every answer possible at run time is a world; the two sides
# must agree in each.
FREE = ("ptr_eq", "spilled", "needs_drop", "typeid_eq", "size_of", "spare")
def is_free(x): return x.op == "fn" and not x.a[1] and x.a[0] in FREE
def free_atoms(ts):
    seen = set(); out = []
    def go(x):
        if x.id in seen: return
        seen.add(x.id)
        if is_free(x) and x not in out: out.append(x)
        for k in kids(x): go(k)
    for t in ts: go(t)
    return out
def assign(t, val):
    """t with every free atom x replaced by val(x)"""
    has = {}
    def contains_atom(x):
        r = has.get(x.id)
        if r is None:
            has[x.id] = False
            r = has[x.id] = is_free(x) or any(contains_atom(k) for k in kids(x))
        return r
    memo = {}
    def f(x):
        r = memo.get(x.id)
        if r is not None: return r
        if not contains_atom(x): r = x
        elif is_free(x): r = val(x)
        elif x.op == "lam":
            bs = bound(x); fr = [fresh("o") for _ in bs]
            nb = assign(subst(x.a[1], dict(zip(bs, fr))) if bs else x.a[1], val)
            hh = 1 + nb.h
            r = mk("lam", hh, subst(nb, {s: mk("bv", hh, b.a[1]) for s, b in zip(fr, bs)}) if bs else nb)
        else: r = rebuild(x, f)
        memo[x.id] = r
        return r
    return f(t)
def root_of(x):
    path = []
    while x.op == "proj": path.append(x.a[:2]); x = x.a[2]
    return (x, tuple(path)) if x.op == "sym" else (None, None)
def memories(ts):
    out = []; seen = set()
    def go(x):
        if x.id in seen: return
        seen.add(x.id)
        if x.op == "sym" and x.a[0].startswith("memory#"): out.append(x)
        for k in kids(x): go(k)
    for t in ts: go(t)
    return out
def constants(ts):
    out = set(); seen = set()
    def go(x):
        if x.id in seen: return
        seen.add(x.id)
        vs = [x.a[1]] if x.op == "lit" else [x.a[0]] if x.op == "sum" else [k for k, _ in x.a[1]] if x.op == "case" else []
        out.update(abs(v) for v in vs if isinstance(v, int) and not isinstance(v, bool))
        for k in kids(x): go(k)
    for t in ts: go(t)
    return out
def outcome_worlds(ev, flow, budget, l, r):
    """-> result, comparator"""
    c = Cmp(ev, flow, budget) if budget else Cmp(ev, flow)
    res = c.outcome(l, r, {}, 0)
    ts = [l[0], l[1]["panic"], l[1]["trace"], r[0], r[1]["panic"], r[1]["trace"]]
    if res is not None: return res, c
    mem = memories(ts) if "memory" in ev.flags else ()
    if mem:
        # what a kept counter holds: around each constant it could be compared with
        ks = {0, 1, 2}
        for k in constants(ts): ks |= {k - 1, k, k + 1}
        for k in sorted(ks)[:24]:
            if k < 0: continue
            us = [subst(t, {m: lit(k) for m in mem}) for t in ts]
            c2 = Cmp(ev, flow, budget) if budget else Cmp(ev, flow)
            if c2.outcome((us[0], {"panic": us[1], "trace": us[2]}), (us[3], {"panic": us[4], "trace": us[5]}), {}, 0) is False: return False, c2
        return None, c
    at = free_atoms(ts)
    if not at or len(at) > 12: return res, c
    pairs = [x for x in at if x.a[0] == "ptr_eq"]; bools = [x for x in at if x.a[0] in ("spilled", "needs_drop", "typeid_eq")]
    ints = [x for x in at if x.a[0] == "size_of"]
    spares = [x for x in at if x.a[0] == "spare"]
    if (spares or any(x.a[0] == "spilled" for x in bools)) and "sized-buffer" in ev.flags: bools = None
    ws = [(None, None)]
    complete = True
    for x in pairs:
        (rx, px), (ry, py) = root_of(x.a[2]), root_of(x.a[3])
        if rx is None or ry is None or px != py: complete = complete and x.a[2] is x.a[3]
        elif rx is not ry: ws.append(({ry: rx}, None))
    for x in bools or (): ws.append((None, x))
    for x in ints: ws += [(None, (x, k)) for k in (0, 1, 64, 4096)]
    ws += [(None, (x, 1)) for x in spares] + ([(None, "roomy")] if len(spares) > 1 else [])
    results = []
    for m, on in ws:
        us = [subst(t, m) for t in ts] if m else ts
        def val(y):
            if y.a[0] == "ptr_eq": return lit(1 if y.a[2] is y.a[3] and (m or y in same) else 0)
            if y.a[0] == "size_of": return lit(on[1] if isinstance(on, tuple) and on[0] is y else 8)
            if bools is None: return y
            if y.a[0] == "spare": return lit(1 if on == "roomy" or isinstance(on, tuple) and on[0] is y else 0)
            return lit(1 if y is on else 0)
        same = [y for y in at if y.a[0] == "ptr_eq" and y.a[2] is y.a[3]] if m is None and on is None else []
        for sm in ([same, []] if same else [same]):
            same = sm
            vs = [assign(t, val) for t in us]
            c2 = Cmp(ev, flow, budget) if budget else Cmp(ev, flow)
            x = c2.outcome((vs[0], {"panic": vs[1], "trace": vs[2]}), (vs[3], {"panic": vs[4], "trace": vs[5]}), {}, 0)
            if x is False: return False, c2
            results.append(x)
    if complete and bools is not None and not ints and not spares and len(at) <= 2 and all(x is True for x in results): return True, c
    return res, c
