"""Hash-consed value-flow terms and their normalising constructors.

A term describes where a value comes from:
  sym(name)                      a parameter of the obligation
  bv(h, i)                       variable bound by a comprehension
  lit(v)                         literal
  con(adt, variant, nvariants, fields...)   constructor / tuple / struct
  proj(variant, i, t)            field of t seen as that variant
  case(s, ((key, t)...))         gated value: s is a scrutinee
  app(f, args...)                application of an unknown callable
  fn(name, rigid, args...)       other operation (rigid: free symbol)
  clo(inst, captures...)         closure / coroutine value
  fndef(idx)                     function item
  word(part...)                  sequence, a word over the free monoid:
      unit(e) | fmap(atom, lam) | other term = generator
  lam(h, body)                   body with bound variables bv(h, i)
  fold(seq, lam, inits...)       left fold, accumulators as a tuple
  first(seq, lam)                first element for which lam gives Some
  mcat(op, word)                 product of the word's letters in monoid op
"""
import sys
sys.setrecursionlimit(200000)

_tab = {}
STEPS = [0]
CAP = [float("inf")]          # a loop being unrolled may not take more steps than this
class Blowup(Exception): pass
class T:
    __slots__ = ("op", "a", "id", "h", "rig", "_syms")
    def __repr__(self): return show(self)

def mk(op, *a):
    STEPS[0] += 1
    if STEPS[0] > CAP[0]: raise Blowup()
    key = (op,) + tuple((x.id if isinstance(x, T) else (tuple((k, v.id) for k, v in x) if op == "case" and isinstance(x, tuple) else x), isinstance(x, T)) for x in a)
    t = _tab.get(key)
    if t is None:
        t = T(); t.op = op; t.a = a; t.id = len(_tab)
        h = 0; rig = op not in ("unk",)
        for x in kids_of(op, a):
            if x.h > h: h = x.h
            if not x.rig: rig = False
        if op == "lam": h = max(h, a[0])
        if op == "fn" and not a[1]: rig = False
        t.h = h; t.rig = rig; t._syms = None
        _tab[key] = t
    return t

def memo(f):
    """results of a function of terms, kept for decisions (their shared parts would be visited once per path)"""
    tab = {}
    def g(*a):
        for x in a:
            if x.__class__ is T and x.op == "case": break
        else: return f(*a)
        r = tab.get(a)
        if r is None: r = tab[a] = f(*a)
        return r
    g.__name__ = f.__name__
    return g

def kids_of(op, a):
    if op == "case":
        yield a[0]
        for _, v in a[1]: yield v
    else:
        for x in a:
            if isinstance(x, T): yield x
def kids(t): return kids_of(t.op, t.a)

def syms(t):
    """set of sym ids occurring in t"""
    if t._syms is None:
        if t.op == "sym": t._syms = frozenset([t.id])
        else:
            s = set()
            for k in kids(t): s |= syms(k)
            t._syms = frozenset(s)
    return t._syms

_fresh = [0]
def sym(name): return mk("sym", name)
def fresh(hint="x"):
    _fresh[0] += 1
    return mk("sym", "%s#%d" % (hint, _fresh[0]))
def lit(v): return mk("lit", type(v).__name__, v)
TRUE = lit(True); FALSE = lit(False); UNIT = mk("con", "()", 0, 1)
ZST = mk("lit", "zst", "zst")
BOT = mk("bot")
NIL = mk("word")
def unk(*why):
    return mk("unk", *why)
def litval(t): return t.a[1] if t.op == "lit" else None

def con(name, v, n, fields): return mk("con", name, v, n, *fields)
def tup(fields): return con("()", 0, 1, fields)
OPT = "std::option::Option"; RES = "std::result::Result"
def some(x): return con(OPT, 1, 2, [x])
NONE = con(OPT, 0, 2, [])
def ok(x): return con(RES, 0, 2, [x])
def err(x): return con(RES, 1, 2, [x])
POLL = "std::task::Poll"
CF = "std::ops::ControlFlow"

@memo
def proj(v, i, t):
    if t.op == "con":
        fs = t.a[3:]
        if t.a[1] == v and i < len(fs): return fs[i]
        return BOT
    if t.op == "case": return case(t.a[0], [(k, proj(v, i, x)) for k, x in t.a[1]])
    if t.op == "bot": return BOT
    if t.op == "upd":
        if t.a[1] == v and t.a[2] == i: return t.a[3]
        return proj(v, i, t.a[0])
    if t.op in ("clo", "cor") and v == 0: return t.a[2 + i] if 2 + i < len(t.a) else BOT
    if t.op == "unk": return mk("unk", "proj", v, i, t)
    if t.op == "fn" and t.a[0] in ABSFN: return ABSHOOK[0](t, v, i)
    return mk("proj", v, i, t)
ABSFN = ("abs:node", "abs:tree", "abs:inner")
ABSHOOK = [None]; ALPHAS = {}

@memo
def upd(t, v, i, x):
    if t.op == "con":
        fs = list(t.a[3:])
        if t.a[1] == v and i < len(fs):
            fs[i] = x; return con(t.a[0], t.a[1], t.a[2], fs)
    if t.op == "case": return case(t.a[0], [(k, upd(y, v, i, x)) for k, y in t.a[1]])
    if t.op in ("clo", "cor") and v == 0 and 2 + i < len(t.a):
        a = list(t.a); a[2 + i] = x; return mk(t.op, *a)
    if t.op == "upd" and t.a[1] == v and t.a[2] == i: t = t.a[0]
    if x.op == "proj" and x.a[2] is t and x.a[0] == v and x.a[1] == i: return t
    return mk("upd", t, v, i, x)

def case(s, arms):
    """gated value; s must be a scrutinee (see keyof)"""
    arms = [(k, t) for k, t in arms if t.op != "bot"]
    if not arms: return BOT
    if s.op == "case":
        # nested decision: distribute
        seen = {}
        def go(s):
            if s.op != "case": return case(s, arms)
            r = seen.get(s)
            if r is None: r = seen[s] = case(s.a[0], [(k, go(x)) for k, x in s.a[1]])
            return r
        return go(s)
    kk = keyof(s)
    if kk is not None:
        for k, t in arms:
            if k == kk: return t
        for k, t in arms:
            if k == "else": return t
        return BOT
    first = arms[0][1]
    if all(t is first for _, t in arms): return first
    # inner cases on the same scrutinee
    new = []
    for k, t in arms:
        new.append((k, restrict(t, s, k)))
    arms = [(k, t) for k, t in new if t.op != "bot"]
    if not arms: return BOT
    first = arms[0][1]
    if all(t is first for _, t in arms): return first
    arms.sort(key=lambda kt: str(kt[0]))
    if len(arms) == 2 and arms[0][1] is FALSE and arms[1][1] is TRUE and arms[0][0] == 0 and arms[1][0] == 1 and s.op not in ("discr", "uncons", "cmp"):
        return s
    return mk("case", s, tuple(arms))

def restrict(t, s, k, depth=40):
    """resolve top-level decisions of t on s"""
    if t.op == "case":
        if t.a[0] is s:
            for kk, x in t.a[1]:
                if kk == k: return x
            for kk, x in t.a[1]:
                if kk == "else" and k != "else": return x
            return BOT if k != "else" else t
        if depth > 0 and s.id in deep(t):
            key = (t.id, s.id, k); r = _restrict.get(key)
            if r is None: r = _restrict[key] = case(t.a[0], [(kk, restrict(x, s, k, depth - 1)) for kk, x in t.a[1]])
            return r
    return t
_restrict = {}
_deepc = {}
def deep(t):
    d = _deepc.get(t.id)
    if d is None:
        d = set()
        if t.op == "case":
            d.add(t.a[0].id)
            for _, x in t.a[1]: d |= deep(x)
        _deepc[t.id] = d
    return d

def keyof(s):
    """known key of a scrutinee term"""
    if s.op == "discr":
        x = s.a[0]
        if x.op == "con": return x.a[1]
        return None
    if s.op == "lit":
        v = s.a[1]
        if v is True: return 1
        if v is False: return 0
        if isinstance(v, int): return v
        return None
    if s.op == "uncons":
        w = s.a[0]
        if w.op == "word":
            if not w.a: return 0
            if any(p.op == "unit" for p in w.a): return 1
        return None
    return None

def ordc(o):  # Ordering constructor from -1/0/1
    return con("std::cmp::Ordering", o + 1, 3, [])

@memo
def discr(x):
    if x.op == "case": return case(x.a[0], [(k, discr(y)) for k, y in x.a[1]])
    if x.op == "con": return lit(x.a[1])
    if x.op == "upd": return discr(x.a[0])
    if x.op == "bot": return BOT
    if x.op == "fn" and x.a[0] in ABSFN: return mk("unk", "representation", x)
    return mk("discr", x)

@memo
def cmp(a, b):
    """scrutinee with keys -1,0,1"""
    if a is b: return lit(0)
    la, lb = litval(a), litval(b)
    if isinstance(la, int) and isinstance(lb, int): return lit((la > lb) - (la < lb))
    # sequences of known length: element by element
    if (a.op == "word" or b.op == "word"):
        p, q = parts_of(a) if a.op == "word" else (), parts_of(b) if b.op == "word" else ()
        if (a.op == "word" and b.op == "word") and all(u.op == "unit" for u in p) and all(u.op == "unit" for u in q):
            def lex(i):
                if i == len(p) or i == len(q): return lit((len(p) > len(q)) - (len(p) < len(q)))
                return case(cmp(p[i].a[0], q[i].a[0]), [(-1, lit(-1)), (0, lex(i + 1)), (1, lit(1))])
            return lex(0)
    # emptiness tests
    for (x, y, sg) in ((a, b, 1), (b, a, -1)):
        if y.op == "lit" and y.a[1] == 0 and x.op == "len":
            return case(uncons(x.a[0]), [(0, lit(0)), (1, lit(1 * sg))])
        if y.op == "lit" and isinstance(y.a[1], int) and x.op == "sum":
            c, ts = x.a[0], x.a[1:]
            if all(t.op == "kx" and t.a[0] > 0 and t.a[1].op == "len" for t in ts) and y.a[1] < c:
                return lit(1 * sg)
            if all(t.op == "kx" and t.a[0] > 0 and t.a[1].op == "len" for t in ts) and y.a[1] == c and len(ts) == 1:
                return case(uncons(ts[0].a[1].a[0]), [(0, lit(0)), (1, lit(1 * sg))])
    for (x, y, f) in ((a, b, 0), (b, a, 1)):
        if x.op == "case" and len(x.a[1]) <= 4:
            return case(x.a[0], [(k, cmp(v, y) if not f else cmp(y, v)) for k, v in x.a[1]])
    d = add(a, b, -1) if is_num(a) or is_num(b) else None
    if d is not None and d.op == "lit":
        v = d.a[1]; return lit((v > 0) - (v < 0))
    for (x, y, sg) in ((a, b, 1), (b, a, -1)):
        # length against 1: an empty sequence is below, any other one is not
        if y.op == "lit" and y.a[1] == 1 and y.a[0] == "int" and x.op == "len":
            if a.id > b.id: c = mk("cmp", b, a); f = -1
            else: c = mk("cmp", a, b); f = 1
            return case(uncons(x.a[0]), [(0, lit(-sg)), (1, case(c, [(0, lit(0)), (sg * f, lit(sg))]))])
    if a.id > b.id:
        c = mk("cmp", b, a)
        return case(c, [(-1, lit(1)), (0, lit(0)), (1, lit(-1))])
    return mk("cmp", a, b)

def is_num(t): return t.op in ("sum", "len") or (t.op == "lit" and t.a[0] == "int")

def on_cmp(a, b, lt, e, gt):
    return case(cmp(a, b), [(-1, lt), (0, e), (1, gt)])

# ---- linear integer arithmetic
def lin(t):
    if t.op == "lit" and t.a[0] == "int": return t.a[1], {}
    if t.op == "sum":
        return t.a[0], {x.a[1]: x.a[0] for x in t.a[1:]}
    return 0, {t: 1}
def unlin(c, d):
    items = sorted(((t, k) for t, k in d.items() if k), key=lambda x: x[0].id)
    if not items: return lit(c)
    if c == 0 and len(items) == 1 and items[0][1] == 1: return items[0][0]
    return mk("sum", c, *[mk("kx", k, t) for t, k in items])
@memo
def add(a, b, s=1):
    for x, y, f in ((a, b, 0), (b, a, 1)):
        if x.op == "case":
            return case(x.a[0], [(k, add(v, y, s) if not f else add(y, v, s)) for k, v in x.a[1]])
        if x.op == "bot": return BOT
    c1, d1 = lin(a); c2, d2 = lin(b)
    d = dict(d1)
    for t, k in d2.items(): d[t] = d.get(t, 0) + s * k
    return unlin(c1 + s * c2, d)

# ---- sequences
def word(parts):
    out = []
    for p in parts:
        if p.op == "word": out.extend(p.a)
        elif p.op == "bot": return BOT
        elif p.op == "lit" and p.a[0] == "str" and p.a[1] == "": pass
        else: out.append(p)
    # fold back hd/tl and init/last, merge string literals
    i = 0; res = []
    for p in out:
        res.append(p)
        while len(res) >= 2:
            x, y = res[-2], res[-1]
            if x.op == "unit" and x.a[0].op == "hd" and y.op == "tl" and y.a[0] is x.a[0].a[0]:
                res[-2:] = [y.a[0]]
            elif y.op == "unit" and y.a[0].op == "last" and x.op == "init" and x.a[0] is y.a[0].a[0]:
                res[-2:] = [x.a[0]]
            elif x.op == "lit" and y.op == "lit" and x.a[0] == "str" and y.a[0] == "str":
                res[-2:] = [lit(x.a[1] + y.a[1])]
            elif x.op == "seg" and y.op == "seg" and x.a[0] is y.a[0] and x.a[2] is y.a[1]:
                res[-2:] = [seg(x.a[0], x.a[1], y.a[2])]
                if res[-1].op == "word": res[-1:] = list(res[-1].a)
            else: break
    if len(res) == 1 and res[0].op not in ("unit", "fmap", "case"): return res[0]
    return mk("word", *res)

@memo
def seg(w, lo, hi):
    """elements lo..hi of w"""
    if lo is hi: return NIL
    if litval(lo) == 0 and hi is length(w): return w
    if w.op == "case": return case(w.a[0], [(k, seg(v, lo, hi)) for k, v in w.a[1]])
    for b, f in ((lo, 0), (hi, 1)):
        if b.op == "case":
            return case(b.a[0], [(k, seg(w, v, hi) if not f else seg(w, lo, v)) for k, v in b.a[1]])
    ps = parts_of(w)
    if w.op == "word" and isinstance(litval(lo), int) and all(p.op == "unit" for p in ps):
        if isinstance(litval(hi), int): return word(ps[litval(lo):litval(hi)])
    # drop leading units
    if w.op == "word" and ps and ps[0].op == "unit":
        l0 = litval(lo)
        if isinstance(l0, int) and l0 >= 1: return seg(word(ps[1:]), lit(l0 - 1), add(hi, lit(1), -1))
        if isinstance(l0, int) and l0 == 0 and hi.op in ("lit", "sum") and (hi.a[1] if hi.op == "lit" else hi.a[0]) >= 1:
            return word([ps[0], seg(word(ps[1:]), lit(0), add(hi, lit(1), -1))])
    if w.op == "seg": return seg(w.a[0], add(w.a[1], lo), add(w.a[1], hi))
    return mk("seg", w, lo, hi)

def parts_of(t):
    if t.op == "word": return list(t.a)
    if t.op == "lit" and t.a[0] == "str" and t.a[1] == "": return []
    return [t]
def unit(e):
    if e.op == "bot": return BOT
    return mk("unit", e)
def cat(*ws):
    ps = []
    for w in ws: ps.extend(parts_of(w))
    return word(ps)
def seq(es): return word([unit(e) for e in es])

def close(body, syms_):
    """bind syms_ in body -> lam"""
    h = 1 + body.h
    m = {s: mk("bv", h, i) for i, s in enumerate(syms_)}
    return mk("lam", h, subst(body, m))
def opened(lam, args):
    h = lam.a[0]
    return subst(lam.a[1], {mk("bv", h, i): x for i, x in enumerate(args)})

@memo
def fmap_(w, lam):
    """concatMap: lam maps an element to a word"""
    if w.op == "bot": return BOT
    if w.op == "case": return case(w.a[0], [(k, fmap_(x, lam)) for k, x in w.a[1]])
    if w.op == "word":
        return cat(*[fmap_(p, lam) for p in w.a]) if w.a else NIL
    if w.op == "unit": return w if w.a[0].op == "effi" else opened(lam, [w.a[0]])
    if w.op == "lit" and w.a[0] == "str" and w.a[1] == "": return NIL
    b = lam.a[1]
    bv0 = mk("bv", lam.a[0], 0)
    if b is NIL and not has_eff(w): return NIL
    if b.op == "word" and len(b.a) == 1 and b.a[0].op == "unit" and b.a[0].a[0] is bv0: return w
    if w.op == "fmap":
        x = fresh()
        inner = opened(w.a[1], [x])
        return fmap_(w.a[0], close(fmap_(inner, lam), [x]))
    if w.op == "range" and b.op == "word" and len(b.a) == 1 and b.a[0].op == "unit" and b.a[0].a[0].op == "idx" and b.a[0].a[0].a[1] is bv0 and not bvs(b.a[0].a[0].a[0]):
        return on_cmp(w.a[0], w.a[1], seg(b.a[0].a[0].a[0], w.a[0], w.a[1]), NIL, NIL)
    return mk("word", mk("fmap", w, lam)) if b.op != "bot" else BOT

def single_body(lam):
    """lam body is always exactly one letter -> that letter's term or None"""
    b = lam.a[1]
    def f(t):
        if t.op == "word" and len(t.a) == 1 and t.a[0].op == "unit": return t.a[0].a[0]
        if t.op == "word" and len(t.a) == 1 and t.a[0].op == "case": return f(t.a[0])
        if t.op == "case":
            arms = []
            for k, x in t.a[1]:
                y = f(x)
                if y is None: return None
                arms.append((k, y))
            return case(t.a[0], arms)
        return None
    return f(b)

def map1(w, f):
    x = fresh()
    return fmap_(w, close(word([unit(f(x))]), [x]))
def flatmap(w, f):
    x = fresh()
    return fmap_(w, close(f(x), [x]))

@memo
def rev(w):
    if w.op == "case": return case(w.a[0], [(k, rev(x)) for k, x in w.a[1]])
    if w.op == "word": return word([r for p in reversed(w.a) for r in parts_of(rev(p))])
    if w.op == "unit": return w
    if w.op == "rev": return w.a[0]
    if w.op == "bot": return w
    if w.op == "lit" and w.a[1] == "": return w
    if w.op == "fmap":
        x = fresh()
        return fmap_(rev(w.a[0]), close(rev(opened(w.a[1], [x])), [x]))
    if w.op == "tl": return mk("init", rev(w.a[0])) if w.a[0].op != "rev" else mk("init", w.a[0].a[0])
    if w.op == "init": return mk("tl", rev(w.a[0])) if w.a[0].op != "rev" else mk("tl", w.a[0].a[0])
    return mk("rev", w)

@memo
def uncons(w):
    """scrutinee for emptiness: keys 0 empty, 1 non-empty"""
    if w.op == "case": return case(w.a[0], [(k, uncons(x)) for k, x in w.a[1]])
    if w.op == "bot": return BOT
    if w.op == "word":
        if not w.a: return lit(0)
        if any(p.op == "unit" for p in w.a): return lit(1)
        r = lit(0)
        for p in reversed(w.a):
            r = case(uncons(p), [(0, r), (1, lit(1))])
        return r
    if w.op == "unit": return lit(1)
    if w.op == "rev": return uncons(w.a[0])
    if w.op == "lit" and w.a[0] == "str": return lit(1 if w.a[1] else 0)
    if w.op == "fmap" and single_body(w.a[1]) is not None: return uncons(w.a[0])
    if w.op == "enum": return uncons(w.a[0])
    if w.op == "range":
        return case(cmp(w.a[0], w.a[1]), [(-1, lit(1)), (0, lit(0)), (1, lit(0))])
    return mk("uncons", w)

@memo
def hdtl(w):
    """(head, tail) of a word known to be non-empty"""
    if w.op == "case":
        arms = [(k,) + hdtl(x) for k, x in w.a[1]]
        return case(w.a[0], [(k, h) for k, h, _ in arms]), case(w.a[0], [(k, t) for k, _, t in arms])
    if w.op == "bot": return BOT, BOT
    if w.op == "word":
        if not w.a: return BOT, BOT
        p, rest = w.a[0], word(w.a[1:])
        if p.op == "unit": return p.a[0], rest
        h1, t1 = hdtl(p)
        u = uncons(p)
        if len(w.a) == 1: return h1, t1
        h2, t2 = hdtl(rest)
        return case(u, [(0, h2), (1, h1)]), case(u, [(0, t2), (1, cat(t1, rest))])
    if w.op == "unit": return w.a[0], NIL
    if w.op == "fmap":
        s = single_body(w.a[1])
        if s is not None:
            h, t = hdtl(w.a[0])
            bv0 = mk("bv", w.a[1].a[0], 0)
            return subst(s, {bv0: h}), fmap_(t, w.a[1])
    if w.op == "rev":
        return mk("last", w.a[0]), rev(mk("init", w.a[0]))
    if w.op == "range":
        return w.a[0], range_(add(w.a[0], lit(1)), w.a[1])
    return mk("hd", w), mk("tl", w)
@memo
def initlast(w):
    h, t = hdtl(rev(w))
    return rev(t), h

@memo
def range_(a, b):
    """integers a..b"""
    for x, y, f in ((a, b, 0), (b, a, 1)):
        if x.op == "case": return case(x.a[0], [(k, range_(v, y) if not f else range_(y, v)) for k, v in x.a[1]])
    la, lb = litval(a), litval(b)
    if a.op == "lit" and b.op == "lit" and isinstance(la, int) and isinstance(lb, int):
        if lb <= la: return NIL
        if lb - la <= 140: return seq([lit(i) for i in range(la, lb)])
        return mk("fn", "range", False, a, b)
    return mk("range", a, b)

@memo
def zip_(a, b):
    for x, y, f in ((a, b, 0), (b, a, 1)):
        if x.op == "case": return case(x.a[0], [(k, zip_(v, y) if not f else zip_(y, v)) for k, v in x.a[1]])
    pa, pb = parts_of(a), parts_of(b)
    if not pa or not pb: return NIL
    if pa[0].op == "unit" and pb[0].op == "unit":
        return cat(seq([tup([pa[0].a[0], pb[0].a[0]])]), zip_(word(pa[1:]), word(pb[1:])))
    if len(pa) == 1 and len(pb) == 1:
        def base(p):
            if p.op == "fmap":
                s = single_body(p.a[1])
                if s is not None: return p.a[0], lambda x: subst(s, {mk("bv", p.a[1].a[0], 0): x})
                return None, None
            return p, lambda x: x
        ba, fa = base(pa[0]); bb, fb = base(pb[0])
        if ba is not None and ba is bb: return map1(ba, lambda x: tup([fa(x), fb(x)]))
        if ba is not None and bb is not None and (pa[0].op == "fmap" or pb[0].op == "fmap"):
            return map1(mk("zip", ba, bb), lambda x: tup([fa(proj(0, 0, x)), fb(proj(0, 1, x))]))
    return mk("zip", a, b)

def has_eff(w):
    r = _hec.get(w.id)
    if r is None:
        r = w.op == "effi" or any(has_eff(k) for k in kids(w))
        _hec[w.id] = r
    return r
_hec = {}
@memo
def strip_eff(w):
    """values of an iterator word (pending effects dropped)"""
    if not has_eff(w): return w
    if w.op == "word": return cat(*[strip_eff(p) for p in w.a])
    if w.op == "unit": return NIL if w.a[0].op == "effi" else w
    if w.op == "fmap":
        x = fresh()
        return fmap_(strip_eff(w.a[0]), close(strip_eff(opened(w.a[1], [x])), [x]))
    if w.op == "case": return case(w.a[0], [(k, strip_eff(x)) for k, x in w.a[1]])
    return rebuild(w, strip_eff)
@memo
def eff_of(w):
    """the trace of effects an iterator word performs when consumed"""
    if not has_eff(w): return NIL
    if w.op == "word": return cat(*[eff_of(p) for p in w.a])
    if w.op == "unit": return w.a[0].a[0] if w.a[0].op == "effi" else NIL
    if w.op == "fmap":
        x = fresh()
        return cat(eff_of(w.a[0]), fmap_(strip_eff(w.a[0]), close(eff_of(opened(w.a[1], [x])), [x])))
    if w.op == "case": return case(w.a[0], [(k, eff_of(x)) for k, x in w.a[1]])
    return unk("eff", w)

@memo
def length(w):
    if w.op == "case": return case(w.a[0], [(k, length(x)) for k, x in w.a[1]])
    if w.op == "bot": return BOT
    if w.op == "word":
        r = lit(0)
        for p in w.a: r = add(r, length(p))
        return r
    if w.op == "unit": return lit(1)
    if w.op == "rev": return length(w.a[0])
    if w.op in ("tl", "init"): return add(length(w.a[0]), lit(1), -1)
    if w.op == "fmap" and single_body(w.a[1]) is not None: return length(w.a[0])
    if w.op == "enum": return length(w.a[0])
    if w.op == "lit" and w.a[0] == "str": return lit(len(w.a[1].encode()))
    if w.op == "seg": return add(w.a[2], w.a[1], -1)
    if w.op == "range" and litval(w.a[0]) == 0: return w.a[1]
    return mk("len", w)

@memo
def enum_(w):
    """word of (index, element)"""
    if w.op == "case": return case(w.a[0], [(k, enum_(x)) for k, x in w.a[1]])
    ps = parts_of(w)
    out = []; off = lit(0)
    for p in ps:
        if p.op == "unit": out.append(unit(tup([off, p.a[0]])))
        elif off is lit(0) and p.op != "fmap": out.append(mk("enum", p))
        elif p.op == "fmap" and single_body(p.a[1]) is not None and off is lit(0):
            s = single_body(p.a[1]); bv0 = mk("bv", p.a[1].a[0], 0)
            x = fresh()
            out.extend(parts_of(fmap_(enum_(p.a[0]), close(word([unit(tup([proj(0, 0, x), subst(s, {bv0: proj(0, 1, x)})]))]), [x]))))
        else: 
            o = off; x = fresh()
            out.extend(parts_of(fmap_(mk("enum", p), close(word([unit(tup([add(o, proj(0, 0, x)), proj(0, 1, x)]))]), [x]))))
        off = add(off, length(p))
    return word(out)

@memo
def chunks_(w, n):
    """consecutive pieces of length n, the last one possibly shorter"""
    if w.op == "case": return case(w.a[0], [(k, chunks_(x, n)) for k, x in w.a[1]])
    if n.op == "case": return case(n.a[0], [(k, chunks_(w, x)) for k, x in n.a[1]])
    if w is NIL: return NIL
    m = litval(n); ps = parts_of(w)
    if isinstance(m, int) and m > 0 and all(p.op == "unit" for p in ps):
        return seq([word(ps[i:i + m]) for i in range(0, len(ps), m)])
    return mk("chunks", w, n)

def sort_(w, lam):
    """stable sort by the three-way comparison lam"""
    if w.op == "case": return case(w.a[0], [(k, sort_(x, lam)) for k, x in w.a[1]])
    ps = parts_of(w)
    if len(ps) <= 1 and all(p.op == "unit" for p in ps): return w
    if all(p.op == "unit" for p in ps) and len(ps) <= 100:
        n = [0]
        def run(rest, done):
            """done is sorted; insert the rest one by one"""
            if not rest: return seq(done)
            x = rest[0]
            def ins(j):
                if j == 0: return run(rest[1:], [x] + done)
                c = opened(lam, [done[j - 1], x])
                def go(c):
                    if c.op == "case":
                        n[0] += 1
                        if n[0] > 40: raise StopIteration
                        return case(c.a[0], [(k, go(y)) for k, y in c.a[1]])
                    k = keyof(c)
                    if k is None: raise StopIteration
                    if k == 2: return ins(j - 1)
                    return run(rest[1:], done[:j] + [x] + done[j:])
                return go(discr(c))
            return ins(len(done))
        try: return run([p.a[0] for p in ps], [])
        except (StopIteration, RecursionError): pass
    return mk("sort", w, lam)

@memo
def idx(w, i):
    """element at i (in bounds)"""
    if w.op == "case": return case(w.a[0], [(k, idx(x, i)) for k, x in w.a[1]])
    if i.op == "case": return case(i.a[0], [(k, idx(w, x)) for k, x in i.a[1]])
    ps = parts_of(w)
    n = litval(i)
    if ps and isinstance(n, int):
        j = 0
        while j < len(ps) and ps[j].op == "unit":
            if j == n: return ps[j].a[0]
            j += 1
        rest = word(ps[j:]); m = n - j
        if not ps[j:]: return BOT
        if m == 0 and len(ps) > j and ps[j].op != "case": return hdtl(rest)[0]
        if j: return idx(rest, lit(m))
    if w.op == "word" and len(ps) == 1 and ps[0].op == "fmap":
        s = single_body(ps[0].a[1])
        if s is not None:
            return subst(s, {mk("bv", ps[0].a[1].a[0], 0): idx(ps[0].a[0], i)})
    if w.op in ("tl",): return idx(w.a[0], add(i, lit(1)))
    if isinstance(n, int) and n == 0: return hdtl(w)[0]
    if i is add(length(w), lit(1), -1): return initlast(w)[1]
    if w.op == "seg": return idx(w.a[0], add(w.a[1], i))
    if w.op == "range": return add(w.a[0], i)
    return mk("idx", w, i)

def setidx(w, i, v):
    if w.op == "case": return case(w.a[0], [(k, setidx(x, i, v)) for k, x in w.a[1]])
    ps = parts_of(w); n = litval(i)
    if isinstance(n, int) and n < len(ps) and all(p.op == "unit" for p in ps[:n + 1]):
        ps[n] = unit(v); return word(ps)
    if n == 0:
        h, t = hdtl(w); return cat(seq([v]), t)
    if i is add(length(w), lit(1), -1):
        it, _ = initlast(w); return cat(it, seq([v]))
    return cat(seg(w, lit(0), i), seq([v]), seg(w, add(i, lit(1)), length(w)))

@memo
def some_payload(g):
    """the payload of an Option term known to be Some"""
    if g.op == "case": return case(g.a[0], [(k, some_payload(x)) for k, x in g.a[1]])
    return proj(1, 0, g)
def found(lam):
    """lam reduced to the test: element -> None | Some(element)"""
    x = fresh()
    def go(g):
        if g.op == "case": return case(g.a[0], [(k, go(y)) for k, y in g.a[1]])
        if g.op == "bot": return g
        if g.op == "con": return NONE if g.a[1] == 0 else some(x)
        return case(discr(g), [(0, NONE), (1, some(x))])
    return close(go(opened(lam, [x])), [x])
CONSISTENT = [None]
def range_facts(x, lo, hi):
    """what is known of an element x of lo..hi"""
    f = {}
    for t, want, neg in ((cmp(x, hi), -1, False), (cmp(x, lo), -1, True)):
        if t.op == "cmp": f[t] = ("x", frozenset([want])) if neg else want
        elif t.op == "case" and t.a[0].op == "cmp":
            ks = [k for k, v in t.a[1] if litval(v) == want]
            if len(ks) == 1: f[t.a[0]] = ("x", frozenset(ks)) if neg else ks[0]
    return f
def range_ok(facts, s, k):
    """can the decision s come out as k for such an element?"""
    if s.op != "cmp" or not isinstance(k, int): return True
    if s in facts:
        g = facts[s]
        if g == k: return True
        if isinstance(g, int) or k in g[1]: return False
    return CONSISTENT[0]({**facts, s: k}) is not False
def prune(b, x, facts):
    if b.op != "case": return b
    s, arms = b.a[0], b.a[1]
    if s.op == "cmp" and x.id in syms(s) and not any(k == "else" for k, _ in arms):
        arms = [(k, v) for k, v in arms if range_ok(facts, s, k)]
        if len(arms) == 1: return prune(arms[0][1], x, facts)
    return case(s, [(k, prune(v, x, facts)) for k, v in arms])
def first_(w, lam):
    """Option: first Some produced by lam over w.
    canonical: mk("first", generator, test) picks the element, the payload is computed from it"""
    b = lam.a[1]
    if w.op == "case": return case(w.a[0], [(k, first_(x, lam)) for k, x in w.a[1]])
    if w.op == "bot": return BOT
    if b is NONE: return NONE
    if w.op == "range" and b.op == "case":
        x = fresh("i"); o = opened(lam, [x]); o2 = prune(o, x, range_facts(x, *w.a))
        if o2 is not o: return first_(w, close(o2, [x]))
    if w.op == "word":
        if not w.a: return NONE
        r = first_(w.a[0], lam)
        if len(w.a) == 1: return r
        rest = first_(word(w.a[1:]), lam)
        return case(discr(r), [(0, rest), (1, r)])
    if w.op == "unit": return opened(lam, [w.a[0]])
    if w.op == "fmap":
        x = fresh()
        inner = opened(w.a[1], [x])
        return first_(w.a[0], close(first_(inner, lam), [x]))
    if b.op == "con" and b.a[1] == 1:
        return case(uncons(w), [(0, NONE), (1, opened(lam, [hdtl(w)[0]]))])
    F = mk("first", w, found(lam))
    return case(discr(F), [(0, NONE), (1, some(some_payload(opened(lam, [proj(1, 0, F)]))))])
def before_(w, lam, stuff):
    """concatMap stuff over the elements before the first one lam picks (all, if none)"""
    if w.op == "case": return case(w.a[0], [(k, before_(x, lam, stuff)) for k, x in w.a[1]])
    if w.op == "bot": return BOT
    if stuff.a[1] is NIL: return NIL
    if w.op == "unit": return case(discr(opened(lam, [w.a[0]])), [(0, opened(stuff, [w.a[0]])), (1, NIL)])
    if w.op == "word":
        if not w.a: return NIL
        p = w.a[0]; b = before_(p, lam, stuff)
        if len(w.a) == 1: return b
        return case(discr(first_(p, lam)), [(0, cat(fmap_(p, stuff), before_(word(w.a[1:]), lam, stuff))), (1, b)])
    if w.op == "fmap":
        x = fresh()
        inner = opened(w.a[1], [x])
        s = single_body(w.a[1])
        if s is not None:
            return before_(w.a[0], close(opened(lam, [subst(s, {mk("bv", w.a[1].a[0], 0): x})]), [x]), close(fmap_(inner, stuff), [x]))
        o = close(first_(inner, lam), [x])
        F = first_(w.a[0], close(case(discr(first_(inner, lam)), [(0, NONE), (1, some(x))]), [x]))
        head = before_(w.a[0], o, close(fmap_(inner, stuff), [x]))
        return case(discr(F), [(0, head), (1, cat(head, before_(opened(w.a[1], [some_payload(F)]), lam, stuff)))])
    if lam.a[1] is NONE: return fmap_(w, stuff)
    return mk("before", w, found(lam), stuff)
def after_(w, lam):
    """the elements behind the first one lam picks"""
    if w.op == "case": return case(w.a[0], [(k, after_(x, lam)) for k, x in w.a[1]])
    if w.op == "bot": return BOT
    if w.op == "unit": return NIL
    if w.op == "word":
        if not w.a: return NIL
        p = w.a[0]; rest = word(w.a[1:])
        return case(discr(first_(p, lam)), [(0, after_(rest, lam)), (1, cat(after_(p, lam), rest))])
    if w.op == "fmap":
        x = fresh(); s = single_body(w.a[1])
        if s is not None:
            return fmap_(after_(w.a[0], close(opened(lam, [subst(s, {mk("bv", w.a[1].a[0], 0): x})]), [x])), w.a[1])
    return mk("after", w, found(lam))
def foldb_(w, lam, step, inits):
    """accumulators (tuple) just before the first element lam picks"""
    if w.op == "case": return case(w.a[0], [(k, foldb_(x, lam, step, inits)) for k, x in w.a[1]])
    if w.op == "bot": return BOT
    if w.op == "unit": return case(discr(opened(lam, [w.a[0]])), [(0, opened(step, [w.a[0]] + list(inits))), (1, tup(inits))])
    if w.op == "word":
        if not w.a: return tup(inits)
        p = w.a[0]; b = foldb_(p, lam, step, inits)
        if len(w.a) == 1: return b
        c = fold_(p, step, inits)
        return case(discr(first_(p, lam)), [(0, foldb_(word(w.a[1:]), lam, step, [proj(0, i, c) for i in range(len(inits))])), (1, b)])
    if w.op == "fmap" and single_body(w.a[1]) is not None:
        x = fresh(); accs = [fresh("a") for _ in inits]
        e = subst(single_body(w.a[1]), {mk("bv", w.a[1].a[0], 0): x})
        return foldb_(w.a[0], close(opened(lam, [e]), [x]), close(opened(step, [e] + accs), [x] + accs), inits)
    return mk("foldb", w, found(lam), step, *inits)

def fold_(w, lam, inits):
    """left fold; lam binds (x, acc0..accn); body is the tuple of new accs"""
    if w.op == "bot": return BOT
    if w.op == "case": return case(w.a[0], [(k, fold_(x, lam, inits)) for k, x in w.a[1]])
    if w.op == "word":
        cur = inits
        for p in w.a:
            t = fold_(p, lam, cur)
            cur = [proj(0, i, t) for i in range(len(inits))]
        return tup(cur)
    if w.op == "unit": return opened(lam, [w.a[0]] + list(inits))
    if w.op == "fmap":
        s = single_body(w.a[1])
        if s is not None:
            x = fresh(); accs = [fresh("a") for _ in inits]
            e = subst(s, {mk("bv", w.a[1].a[0], 0): x})
            return fold_(w.a[0], close(opened(lam, [e] + accs), [x] + accs), inits)
        x = fresh(); accs = [fresh("a") for _ in inits]
        inner = opened(w.a[1], [x])
        if not (inner.op == "word" and len(inner.a) == 1 and inner.a[0].op == "fmap" and inner.a[0].a[0] is x):
            return fold_(w.a[0], close(fold_(inner, lam, accs), [x] + accs), inits)
    return mk("fold", w, lam, *inits)

EMPTYOF = {}
def mcat(op, w):
    """monoid product; letters are operands. Flattens; op's neutral element is dropped"""
    if w.op == "bot": return BOT
    ps = []
    def flat(p):
        if p.op == "word":
            for q in p.a: flat(q)
        elif p.op == "unit":
            e = p.a[0]
            if e.op == "mcat" and e.a[0] == op: flat(e.a[1])
            elif e.op == "fn" and e.a[0] == "empty:" + op: pass
            elif e.op == "case":
                ps.append(case(e.a[0], [(k, word(mcat_letters(op, v))) for k, v in e.a[1]]))
            else: ps.append(p)
        elif p.op == "bot": ps.append(p)
        else: ps.append(p)
    flat(w)
    w2 = word(ps)
    if w2.op == "bot": return BOT
    if w2.op == "word" and len(w2.a) == 1:
        if w2.a[0].op == "unit": return w2.a[0].a[0]
        if w2.a[0].op == "case":
            c = w2.a[0]
            return case(c.a[0], [(k, mcat(op, v)) for k, v in c.a[1]])
    if w2 is NIL: return mk("fn", "empty:" + op, True)
    return mk("mcat", op, w2)
def mcat_letters(op, e):
    t = mcat(op, word([unit(e)]))
    if t.op == "mcat": return parts_of(t.a[1])
    if t.op == "fn" and t.a[0] == "empty:" + op: return []
    return [unit(t)]

# ---- uninterpreted loops, run out when they go over a finite word
def loop_(name, rig, lam, ins):
    if any(x.op == "word" and all(p.op == "unit" for p in x.a) for x in ins) and name != "loopvar":
        budget = [1500]; most = 10 + max(len(x.a) for x in ins if x.op == "word"); seen = {}
        def run(vs, d):
            if d > most: return None
            r = seen.get(tuple(vs))
            if r is None:
                r = walk(opened(lam, vs), d)
                if r is not None: seen[tuple(vs)] = r
            return r
        def walk(t, d):
            budget[0] -= 1
            if budget[0] < 0: return None
            if t.op == "case":
                arms = []
                for k, x in t.a[1]:
                    r = walk(x, d)
                    if r is None: return None
                    arms.append((k, r))
                return case(t.a[0], arms)
            if t.op == "bot": return t
            if t.op == "con" and t.a[0] == "next": return run(list(t.a[3:]), d + 1)
            if t.op == "con" and t.a[0] == "exit":
                if name == "loopexit": return t.a[3]
                n = int(name[7:])
                return t.a[4 + n] if 4 + n < len(t.a) else None
            return None
        try: r = run(list(ins), 0)
        except RecursionError: r = None
        if r is not None: return r
    return mk("fn", name, rig, lam, *ins)

# ---- equality as a boolean term
STRUCTEQ = ("Option", "Result", "Ordering", "()", "Box", "Poll", "ControlFlow")
def conj_(b, rest):
    """b && rest() on boolean terms"""
    if b is FALSE or b is BOT: return b
    if b is TRUE: return rest()
    r = rest()
    if r is TRUE: return b
    return case(b, [(0, FALSE), (1, r)])
@memo
def same(x, y):
    """== of two elements of a type whose equality need not be reflexive (floating point)"""
    if x.op == "bot" or y.op == "bot": return BOT
    if x.op == "case": return case(x.a[0], [(k, same(v, y)) for k, v in x.a[1]])
    if y.op == "case": return case(y.a[0], [(k, same(x, v)) for k, v in y.a[1]])
    return mk("fn", "same", True, *sorted((x, y), key=lambda v: v.id))
def comparable(x, y):
    """are two elements of a partially ordered type comparable"""
    if x.op == "bot" or y.op == "bot": return BOT
    if x.op == "case": return case(x.a[0], [(k, comparable(v, y)) for k, v in x.a[1]])
    if y.op == "case": return case(y.a[0], [(k, comparable(x, v)) for k, v in y.a[1]])
    return mk("fn", "comparable", True, *sorted((x, y), key=lambda v: v.id))
def eqt(x, y, rig=True):
    if x is y: return TRUE
    if x.op == "bot" or y.op == "bot": return BOT
    if x.op == "case": return case(x.a[0], [(k, eqt(v, y, rig)) for k, v in x.a[1]])
    if y.op == "case": return case(y.a[0], [(k, eqt(x, v, rig)) for k, v in y.a[1]])
    if x.op == "lit" and y.op == "lit" and x is not ZST and y is not ZST: return TRUE if x.a[1] == y.a[1] else FALSE
    if y.op == "con" and x.op != "con": x, y = y, x
    if x.op == "con" and x.a[0].split("::")[-1] in STRUCTEQ:
        if y.op == "con":
            if x.a[0] == y.a[0]:
                if x.a[1] != y.a[1]: return FALSE
                def go(i):
                    if i >= len(x.a): return TRUE
                    return conj_(eqt(x.a[i], y.a[i], rig), lambda: go(i + 1))
                return go(3)
        elif y.op in ("sym", "proj", "app", "hd", "last", "idx", "fn", "bv", "first"):
            def go(i):
                if i >= len(x.a): return TRUE
                return conj_(eqt(x.a[i], proj(x.a[1], i - 3, y), rig), lambda: go(i + 1))
            if x.a[2] == 1: return go(3)
            return case(discr(y), [(x.a[1], go(3)), ("else", FALSE)])
    if x.op == "word" or y.op == "word":
        p, q = (x.a if x.op == "word" else (x,)), (y.a if y.op == "word" else (y,))
        if all(u.op == "unit" for u in p) and all(u.op == "unit" for u in q):
            if len(p) != len(q): return FALSE
            def go(i):
                if i >= len(p): return TRUE
                return conj_(eqt(p[i].a[0], q[i].a[0], rig), lambda: go(i + 1))
            return go(0)
    if x.id > y.id: x, y = y, x
    return mk("fn", "eq", rig, x, y)

# ---- substitution / rebuild through the normalising constructors
def rebuild(t, f):
    op, a = t.op, t.a
    if op in ("sym", "lit", "bv", "bot", "fndef"): return t
    if op == "con": return con(a[0], a[1], a[2], [f(x) for x in a[3:]])
    if op == "proj": return proj(a[0], a[1], f(a[2]))
    if op == "upd": return upd(f(a[0]), a[1], a[2], f(a[3]))
    if op == "case": return case(f(a[0]), [(k, f(x)) for k, x in a[1]])
    if op == "discr": return discr(f(a[0]))
    if op == "uncons": return uncons(f(a[0]))
    if op == "cmp": return cmp(f(a[0]), f(a[1]))
    if op == "word": return cat(*[f(x) for x in a])
    if op == "unit":
        e = f(a[0])
        if e.op == "ev":
            w = evword(e)
            if w is not None: return w
        return word([unit(e)])
    if op == "fmap": return fmap_(f(a[0]), f(a[1]))
    if op == "lam":
        return mk("lam", a[0], f(a[1]))
    if op == "first": return first_(f(a[0]), f(a[1]))
    if op == "before": return before_(f(a[0]), f(a[1]), f(a[2]))
    if op == "after": return after_(f(a[0]), f(a[1]))
    if op == "foldb": return foldb_(f(a[0]), f(a[1]), f(a[2]), [f(x) for x in a[3:]])
    if op == "fold": return fold_(f(a[0]), f(a[1]), [f(x) for x in a[2:]])
    if op == "hd": return hdtl(f(a[0]))[0]
    if op == "tl": return hdtl(f(a[0]))[1]
    if op == "last": return initlast(f(a[0]))[1]
    if op == "init": return initlast(f(a[0]))[0]
    if op == "rev": return rev(f(a[0]))
    if op == "len": return length(f(a[0]))
    if op == "enum": return enum_(f(a[0]))
    if op == "range": return range_(f(a[0]), f(a[1]))
    if op == "sort": return sort_(f(a[0]), f(a[1]))
    if op == "chunks": return chunks_(f(a[0]), f(a[1]))
    if op == "zip": return zip_(f(a[0]), f(a[1]))
    if op == "idx": return idx(f(a[0]), f(a[1]))
    if op == "seg": return seg(f(a[0]), f(a[1]), f(a[2]))
    if op == "mcat": return mcat(a[0], f(a[1]))
    if op == "fn" and a[0] in ("loopexit", "loopvar") or op == "fn" and a[0].startswith("loopout"): return loop_(a[0], a[1], f(a[2]), [f(x) for x in a[3:]])
    if op == "fn" and a[0] in ALPHAS: return ALPHAS[a[0]](*[f(x) for x in a[2:]])
    if op == "fn" and a[0] == "eq" and len(a) == 4: return eqt(f(a[2]), f(a[3]), a[1])
    if op == "fn" and a[0] == "same": return same(f(a[2]), f(a[3]))
    if op == "fn" and a[0] == "comparable": return comparable(f(a[2]), f(a[3]))
    if op == "sum":
        r = lit(a[0])
        for kx in a[1:]:
            t2 = f(kx.a[1]); k = kx.a[0]
            for _ in range(abs(k)): r = add(r, t2, 1 if k > 0 else -1)
        return r
    if op == "app" :
        return app_(f(a[0]), [f(x) for x in a[1:]])
    return mk(op, *[f(x) if isinstance(x, T) else x for x in a])

def beta(f, args):
    """a known callable that reached an application by substitution: its value and the calls it makes"""
    if APPHOOK[0] is None or APPHOOK[0].betad > 12: return None
    k = (f.id,) + tuple(x.id for x in args)
    memo = APPHOOK[0].betam
    if k not in memo: memo[k] = APPHOOK[0].beta(f, args)
    return memo[k]
def evword(e):
    f = e.a[0]
    if f.op == "case":
        r = [(k, evword(mk("ev", x, *e.a[1:])) or seq([mk("ev", x, *e.a[1:])])) for k, x in f.a[1]]
        return case(f.a[0], r)
    if f.op in ("clo", "fndef"):
        r = beta(f, e.a[1:])
        if r is not None: return r[1]
    return None
APPHOOK = [None]
def app_(f, args):
    if f.op in ("clo", "fndef"):
        r = beta(f, args)
        if r is not None: return r[0]
    if f.op == "case": return case(f.a[0], [(k, app_(x, args)) for k, x in f.a[1]])
    return mk("app", f, *args)

def bvs(t):
    """ids of all bv occurring in t"""
    b = _bvc.get(t.id)
    if b is None:
        if t.op == "bv": b = frozenset([t.id])
        else:
            s = set()
            for k in kids(t): s |= bvs(k)
            b = frozenset(s)
        _bvc[t.id] = b
    return b
_bvc = {}

def bound(lam):
    """the bv terms bound by lam that occur in its body"""
    h = lam.a[0]; out = []; seen = set()
    def go(x):
        if x.id in seen or not bvs(x): return
        seen.add(x.id)
        if x.op == "bv":
            if x.a[0] == h: out.append(x)
            return
        for k in kids(x): go(k)
    go(lam.a[1])
    return sorted(out, key=lambda x: x.a[1])

def subst(t, m):
    memo = {k.id: v for k, v in m.items()}
    keys = set()
    for k in m: keys |= (syms(k) or bvs(k))
    hassym = any(k.op != "bv" for k in m)
    hasbv = any(k.op == "bv" for k in m)
    def f(x):
        r = memo.get(x.id)
        if r is None:
            if not ((hassym and syms(x) & keys) or (hasbv and bvs(x) & keys)): r = x
            elif x.op == "lam":
                bs = bound(x)
                fr = [fresh("o") for _ in bs]
                body = subst(x.a[1], dict(zip(bs, fr))) if bs else x.a[1]
                nb = f(body)
                hh = 1 + nb.h
                r = mk("lam", hh, subst(nb, {s: mk("bv", hh, b.a[1]) for s, b in zip(fr, bs)}) if bs else nb)
            else: r = rebuild(x, f)
            memo[x.id] = r
        return r
    return f(t)

def show(t, d=0):
    op, a = t.op, t.a
    if d > 14: return "..."
    s = lambda x: show(x, d + 1)
    if op == "sym": return a[0]
    if op == "bv": return "v%d_%d" % a
    if op == "lit": return repr(a[1])
    if op == "con":
        n = a[0].split("::")[-1]
        if n == "Option": n = ("None", "Some")[a[1]]
        elif n == "Result": n = ("Ok", "Err")[a[1]]
        elif a[2] > 1: n += "#%d" % a[1]
        if n == "()": n = ""
        return n + ("(" + ", ".join(s(x) for x in a[3:]) + ")" if len(a) > 3 or n == "" else "")
    if op == "proj": return "%s.%s%d" % (s(a[2]), ("v%d." % a[0]) if a[0] else "", a[1])
    if op == "case": return "{%s ? %s}" % (s(a[0]), "; ".join("%s: %s" % (k, s(x)) for k, x in a[1]))
    if op == "app": return "%s<%s>" % (s(a[0]), ", ".join(s(x) for x in a[1:]))
    if op == "fn": return "%s(%s)" % (a[0], ", ".join(s(x) for x in a[2:]))
    if op == "word": return "[" + " ++ ".join(s(x) for x in a) + "]"
    if op == "unit": return "<" + s(a[0]) + ">"
    if op == "fmap": return "for(%s: %s)" % (s(a[0]), s(a[1]))
    if op == "lam": return "\\%d. %s" % (a[0], s(a[1]))
    if op == "sum": return "(" + " + ".join([str(a[0])] + ["%d*%s" % (x.a[0], s(x.a[1])) for x in a[1:]]) + ")"
    return "%s(%s)" % (op, ", ".join(s(x) if isinstance(x, T) else str(x) for x in a))
