"""Persistent vectors: what a value contains (the abstraction), and what the functions of the
vector, tree and node levels promise about it (contracts, used at calls between the crate's own
functions; each is checked against the function's body by a law that calls it directly).

contents of a vector  = contents of its representation (inline elements or tree)
contents of a tree    = head ++ contents of the root ++ tail
contents of a node    = a leaf's elements, or its children's contents in order
"""
import re
from terms import *
import eval as E

PVN, VI, TN, NN = "PersistentVector", "VectorImpl", "RRBTree", "RRBNode"
def adt(t, n): return t.op == "con" and t.a[0].split("::")[-1] == n
def isfn(t, n): return t.op == "fn" and t.a[0] == n
def dist(f, t):
    if t.op == "case": return case(t.a[0], [(k, f(x)) for k, x in t.a[1]])
    if t.op == "bot": return BOT
    return None
def av(t):
    r = dist(av, t)
    if r is not None: return r
    if adt(t, PVN): return ai(t.a[3])
    return mk("fn", "contents:vector", True, t)
def ai(t):
    r = dist(ai, t)
    if r is not None: return r
    if adt(t, VI): return t.a[3] if t.a[1] == 0 else at(t.a[3])
    if isfn(t, "abs:inner"): return t.a[2]
    if t.op == "proj" and t.a[0] == 0 and t.a[1] == 0 and t.a[2].op == "sym": return mk("fn", "contents:vector", True, t.a[2])   # the representation of an unknown vector (the only type holding one)
    return mk("fn", "contents:inner", False, t)
def at(t):
    r = dist(at, t)
    if r is not None: return r
    if adt(t, TN): return cat(t.a[5], an(t.a[3]), t.a[4])
    if isfn(t, "abs:tree"): return t.a[2]
    return mk("fn", "contents:tree", False, t)
def an(t):
    r = dist(an, t)
    if r is not None: return r
    if adt(t, NN): return t.a[3] if t.a[1] == 1 else flatmap(t.a[3], an)
    if isfn(t, "abs:node"): return t.a[2]
    return mk("fn", "contents:node", True, t)
ALPHA = {"contents:vector": av, "contents:inner": ai, "contents:tree": at, "contents:node": an}

# stored lengths and size tables agree with the contents
def same(a, b):
    if a.op == "word" or b.op == "word" or a.op in ("fmap",) : return eqt(a, b)
    return on_cmp(a, b, FALSE, TRUE, FALSE)
def iv(t):
    r = dist(iv, t)
    if r is not None: return r
    if adt(t, PVN): return conj_(same(t.a[4], length(ai(t.a[3]))), lambda: ii(t.a[3]))
    return mk("fn", "inv:vector", False, t)
def ii(t):
    r = dist(ii, t)
    if r is not None: return r
    if adt(t, VI): return TRUE if t.a[1] == 0 else it(t.a[3])
    if isfn(t, "abs:inner"): return TRUE
    return mk("fn", "inv:inner", False, t)
def it(t):
    r = dist(it, t)
    if r is not None: return r
    if adt(t, TN): return conj_(same(t.a[7], length(at(t))), lambda: inn(t.a[3]))
    if isfn(t, "abs:tree"): return TRUE
    return mk("fn", "inv:tree", False, t)
def sizes_of(w): return map1(w, lambda c: length(an(c)))
def words_eq(a, b):
    """two words of integers, letter by letter where they are letters"""
    if a is b: return TRUE
    for x, y, f in ((a, b, 0), (b, a, 1)):
        if x.op == "case": return case(x.a[0], [(k, words_eq(v, y)) for k, v in x.a[1]])
    p, q = parts_of(a), parts_of(b)
    if all(u.op == "unit" for u in p) and all(u.op == "unit" for u in q):
        if len(p) != len(q): return FALSE
        r = TRUE
        for u, v in zip(p, q): r = conj_(r, lambda: same(u.a[0], v.a[0]))
        return r
    return mk("fn", "inv:sizes", False, a, b)
def inn(t):
    r = dist(inn, t)
    if r is not None: return r
    if adt(t, NN):
        if t.a[1] == 1: return TRUE
        ch, sz = t.a[3], t.a[4]
        def size(s):
            r = dist(size, s)
            if r is not None: return r
            if s.op == "con" and s.a[1] == 1: return words_eq(s.a[3], sizes_of(ch))
            return mk("fn", "inv:regular", False, t)
        r = size(sz)
        for p in parts_of(ch):
            if p.op == "unit": r = conj_(r, lambda: inn(p.a[0]))
        return r
    return TRUE  # any well-formed node
INV = {"inv:vector": iv, "inv:inner": ii, "inv:tree": it, "inv:sizes": words_eq}

# ---- values of unknown representation
def mkv(w):
    if w.op == "bot": return BOT
    return con(PVPATH, 0, 1, [mk("fn", "abs:inner", True, w), length(w), mk("fn", "generation", False)])
def mkt(w): return mk("fn", "abs:tree", True, w) if w.op != "bot" else BOT
def mkn(w): return mk("fn", "abs:node", True, w) if w.op != "bot" else BOT
PVPATH = "pvec::core::PersistentVector"; VIPATH = "pvec::core::VectorImpl"; TPATH = "pvec::tree::RRBTree"
def look(t, v, i):
    """field of a value of unknown representation"""
    if isfn(t, "abs:tree") and v == 0 and i == 4: return length(t.a[2])
    return mk("unk", "representation", t)

ABSHOOK[0] = look
ALPHAS.update(ALPHA); ALPHAS.update({k: f for k, f in INV.items() if f})
# ---- contracts
C = {}
def contract(*names):
    def d(f):
        for n in names: C[n] = f
        return f
    return d
def inrange(i, w, y, n): return on_cmp(i, length(w), y, n, n)
def get_(w, i):
    if litval(i) == 0: return case(uncons(w), [(0, NONE), (1, some(hdtl(w)[0]))])
    return inrange(i, w, some(idx(w, i)), NONE)
def upd_(w, i, x):
    if litval(i) == 0: return case(uncons(w), [(0, w), (1, setidx(w, i, x))])
    return inrange(i, w, setidx(w, i, x), w)
def take_(w, i):
    if litval(i) == 0: return NIL
    if litval(i) == 1: return case(uncons(w), [(0, NIL), (1, seq([hdtl(w)[0]]))])
    return on_cmp(i, length(w), seg(w, lit(0), i), w, w)
def drop_(w, i):
    if litval(i) == 0: return w
    if litval(i) == 1: return case(uncons(w), [(0, NIL), (1, hdtl(w)[1])])
    return on_cmp(i, length(w), seg(w, i, length(w)), NIL, NIL)
def popb(w, mkx):
    i, l = initlast(w)
    return case(uncons(w), [(0, NONE), (1, some(tup([mkx(i), l])))])
def popf(w, mkx):
    h, t = hdtl(w)
    return case(uncons(w), [(0, NONE), (1, some(tup([mkx(t), h])))])
def level(prefix, A, mkx):
    def c(n, f): C[prefix + n] = f
    c("get", lambda ev, w, r: get_(w, r[0]))
    c("update", lambda ev, w, r: mkx(upd_(w, r[0], r[1])))
    c("push_back", lambda ev, w, r: mkx(cat(w, seq([r[0]]))))
    c("push_front", lambda ev, w, r: mkx(cat(seq([r[0]]), w)))
    c("pop_back", lambda ev, w, r: popb(w, mkx))
    c("pop_front", lambda ev, w, r: popf(w, mkx))
    c("concat", lambda ev, w, r: mkx(cat(w, A(r[0]))))
    c("split_at", lambda ev, w, r: tup([mkx(take_(w, r[0])), mkx(drop_(w, r[0]))]))
V_, T_, N_ = "PersistentVector::", "RRBTree::", "RRBNode::"
level(V_, av, mkv); level(T_, at, mkt)
for n in ("get", "update", "pop_back", "pop_front"): pass
C[V_ + "iter"] = lambda ev, w, r: w
C[V_ + "into_iter"] = C[V_ + "iter"]
C[V_ + "len"] = lambda ev, w, r: length(w)
C[V_ + "is_empty"] = lambda ev, w, r: case(uncons(w), [(0, TRUE), (1, FALSE)])
C[N_ + "update"] = lambda ev, w, r: mkn(upd_(w, r[0], r[1]))
C[N_ + "push_leaf"] = lambda ev, w, r: mkn(cat(w, an(r[0])))
C[N_ + "push_front_leaf"] = lambda ev, w, r: mkn(cat(an(r[0]), w))
C[N_ + "calculate_size"] = lambda ev, w, r: length(w)
FIELD = {V_: av, T_: at, N_: an}
NODE2 = {}
# spec helpers (spec/refs.rs)
H = {
 "pseq": lambda a: av(a[0]), "tseq": lambda a: at(a[0]), "nseq": lambda a: an(a[0]),
 "pinv": lambda a: iv(a[0]), "tinv": lambda a: it(a[0]), "ninv": lambda a: inn(a[0]),
 "pabs": lambda a: mkv(a[0]),
 "pinl": lambda a: con(PVPATH, 0, 1, [con(VIPATH, 0, 2, [a[0]]), length(a[0]), mk("fn", "generation", False)]),
 "ptree": lambda a: con(PVPATH, 0, 1, [con(VIPATH, 1, 2, [a[0]]), length(at(a[0])), mk("fn", "generation", False)]),
 "nabs": lambda a: mkn(a[0]),
 "pgen": lambda a: con(PVPATH, 0, 1, [mk("fn", "abs:inner", True, a[0]), length(a[0]), a[1]]) if a[0].op != "bot" else BOT,
 "ginl": lambda a: con(PVPATH, 0, 1, [con(VIPATH, 0, 2, [a[0]]), length(a[0]), a[1]]),
 "gtree": lambda a: con(PVPATH, 0, 1, [con(VIPATH, 1, 2, [a[0]]), length(at(a[0])), a[1]]),
}
NORM = {}
def norm(rp):
    r = NORM.get(rp)
    if r is None:
        m = re.match(r"<&?(?:'\w+ )?pvec::\w+::(\w+)<.*> as .*>::(\w+)$", rp)
        if m: r = (m.group(1) + "::" + m.group(2), True)
        else:
            m = re.match(r"pvec::\w+::(\w+)::<[^>]*>::(\w+)$", rp)
            r = (m.group(1) + "::" + m.group(2), False) if m else ("", False)
        NORM[rp] = r
    return r
def isabs(t):
    """a node of which the shape is not known (in some case)"""
    if t.op == "case": return any(isabs(x) for _, x in t.a[1])
    return not adt(t, NN)
def call(ev, info, rp, args, env):
    """-> (value, env) if the call is answered here"""
    if rp.startswith("verif_spec::refs::"):
        f = H.get(rp[18:])
        if f is None: return None
        return f([ev.deref(a, env) for a in args]), env
    if not rp.startswith(("pvec::", "<pvec::", "<&")): return None
    n, tr = norm(rp)
    if not n: return None
    caller = info.fr.body["path"] if info.fr is not None else ""
    direct = re.search(r"verif_spec::c(24|25)::", caller) is not None
    V = lambda i: ev.deref(args[i], env)
    if n in ("PersistentVectorIter::next", "PersistentVectorIntoIter::next"):
        v = V(0)
        if v.op == "con": return None
        import models
        i2 = info; c = dict(info.c); c.pop("inst", None); info.c = c
        return models.inext(ev, args, env, {}, info)
    if n == "PersistentVector::from_iter" and not direct:
        import models
        w, env = models.consume(ev, models.wordof(ev, args[0], env, info, len(info.c["targs"]) - 1), env, info)
        return mkv(w), env
    if n == "RRBTree::from_elements" and not direct:
        import models
        w, env = models.consume(ev, models.wordof(ev, args[0], env, info, len(info.c["targs"]) - 1), env, info)
        return mkt(w), env
    if n == "RRBTree::calculate_height":
        return mk("fn", "height", True, V(0)), env
    if n == "RRBTree::build_tree_recursive" and ev.isrec(info.prog, info.c.get("inst")):
        w = V(0); t = flatmap(w, an)
        return tup([mkn(t), mk("fn", "height", True, w)]), env
    if n == "RRBTree::concat_nodes":
        l, r = V(0), V(1)
        if not (isabs(l) or isabs(r)): return None
        return mkn(cat(an(l), an(r))), env
    if n == "RRBTree::get_from_tree":
        t = V(0)
        if not adt(t, TN) or not isabs(t.a[3]): return None
        return get_(an(t.a[3]), args[1]), env
    if n == "RRBTree::split_tree_at":
        t = V(0)
        if not adt(t, TN) or not isabs(t.a[3]): return None
        w = an(t.a[3])
        return tup([mkn(take_(w, args[1])), mkn(drop_(w, args[1]))]), env
    if n in C:
        p = n[:n.index("::") + 2]
        if p == N_:
            if not isabs(V(0)): return None
        elif direct: return None
        rest = [ev.deref(a, env) if a.op == "mref" else a for a in args[1:]]
        w = FIELD[p](V(0))
        return C[n](ev, w, rest), env
    return None
E.PVEC[0] = call
