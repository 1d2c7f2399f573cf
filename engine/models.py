"""Value-flow models of std / smallvec operations, by resolved path."""
from eval import *
import re

def ident(*names):
    @model(*names)
    def f(ev, a, env, gate, info): return ev.deref(a[0], env) if not getattr(f, "keep", 0) else a[0], env
for n in """Clone::clone ToOwned::to_owned slice::to_vec Vec::as_slice Vec::into_boxed_slice slice::into_vec SmallVec::as_slice SmallVec::into_vec SmallVec::from_vec
 AsRef::as_ref Borrow::borrow Deref::deref Box::new Arc::new Rc::new Iterator::cloned Iterator::copied Box::pin Pin::new_unchecked
 slice::iter Vec::iter SmallVec::iter IntoIterator::into_iter String::as_str str::chars str::to_string str::to_owned str::as_bytes String::as_bytes
 Iterator::into_iter SmallVec::into_iter Iterator::by_ref Iterator::fuse Box::into_inner String::into_boxed_str
 SmallVec::from_slice SmallVec::from_elem_ SmallVec::from slice::into_iter Arc::as_ref Rc::as_ref HashMap::iter HashMap::into_iter BTreeMap::iter HashSet::iter BTreeSet::iter VecDeque::iter
 Option::iter_ Wrapping::new Vec::leak hint::black_box hint::must_use slice::as_ref array::iter SmallVec::drain_ Arc::from Rc::from convert::identity Into_::into IntoFuture::into_future future::get_context Pin::get_mut Pin::as_mut Pin::new slice::to_owned array::into_iter Arc::unwrap_or_clone str::chars_
 Cow::into_owned_ Cow::Borrowed_ array::as_slice Peekable::by_ref Iterator::peekable SmallVec::to_vec String::from_utf8_lossy_ boxed::box_new intrinsics::box_new""".split():
    ident(n)

@model("DerefMut::deref_mut", "AsMut::as_mut", "Vec::as_mut_slice", "BorrowMut::borrow_mut", "Arc::make_mut", "Rc::make_mut", "SmallVec::as_mut_slice", "Pin::new", "Pin::as_mut", "Pin::get_mut", "Pin::new_unchecked", "Pin::get_unchecked_mut", "Iterator::by_ref", "Box::as_mut")
def keep(ev, a, env, gate, info): return a[0], env

@model("Pin::new", "Pin::new_unchecked")
def keep2(ev, a, env, gate, info): return a[0], env

@model("ToString::to_string")
def to_string(ev, a, env, gate, info):
    t = info.prog.types[info.c["targs"][0]]["s"]
    v = ev.deref(a[0], env)
    if t in ("str", "std::string::String", "&str"): return v, env
    return mk("fn", "to_string", True, v), env

@model("From::from")
def from_(ev, a, env, gate, info):
    ts = [info.prog.types[x]["s"] for x in info.c["targs"]]
    if ts[0] == ts[-1]: return a[0], env
    if "inst" in info.c: return None
    if seqtype(ts[0]) and (seqtype(ts[-1]) or ts[-1] in ("&str", "str")): return ev.deref(a[0], env), env
    if re.match(r"std::(sync::Arc|rc::Rc|boxed::Box)<", ts[0]): return ev.deref(a[0], env), env
    return None
@model("Into::into")
def into_(ev, a, env, gate, info):
    ts = [info.prog.types[x]["s"] for x in info.c["targs"]]
    if ts[0] == ts[-1]: return a[0], env
    if seqtype(ts[0]) and seqtype(ts[-1]) and "inst" not in info.c: return ev.deref(a[0], env), env
    if "via" in info.c: return ev.call_inst(info.prog, info.c["via"], a, env, gate)
    return None

SEQ = re.compile(r"^&?(mut )?(std::vec::Vec<|smallvec::SmallVec<|std::collections::VecDeque<|std::string::String|std::boxed::Box<\[|\[|str$)")
def seqtype(t): return bool(SEQ.match(t))

# ---- vectors and strings
@model("Vec::new", "SmallVec::new", "String::new", "Vec::with_capacity", "SmallVec::with_capacity", "String::with_capacity", "VecDeque::new", "VecDeque::with_capacity", "SmallVec::new_const")
def vnew(ev, a, env, gate, info):
    if "with_capacity" in info.short: ev.flags.add("sized-buffer")
    return NIL, env
@model("Default::default")
def dflt(ev, a, env, gate, info):
    t = info.prog.types[info.c["targs"][0]]["s"]
    if "inst" in info.c: return None
    if seqtype(t): return NIL, env
    if MAPT.match(t): return EMPTYMAP, env
    if t.startswith("std::option::Option<"): return NONE, env
    if t == "bool": return FALSE, env
    if t in ("usize", "i32", "u32", "i64", "u64", "u8", "isize"): return lit(0), env
    if t == "()": return UNIT, env
    if "PhantomData" in t: return ZST, env
    return mk("fn", "default:" + t, True), env

@model("iter::empty")
def iempty(ev, a, env, gate, info): return NIL, env
@model("iter::once")
def ionce(ev, a, env, gate, info): return seq([a[0]]), env
@model("SmallVec::from_buf", "SmallVec::from_elem_1")
def frombuf(ev, a, env, gate, info): return ev.deref(a[0], env), env

@model("Vec::push", "SmallVec::push", "String::push", "VecDeque::push_back")
def push(ev, a, env, gate, info):
    if "String" in info.short and a[1].op == "lit" and a[1].a[0] == "char":
        ev.write(a[0], cat(ev.deref(a[0], env), lit(chr(a[1].a[1]))), env); return UNIT, env
    ev.write(a[0], cat(ev.deref(a[0], env), seq([a[1]])), env); return UNIT, env
@model("VecDeque::push_front")
def pushf(ev, a, env, gate, info):
    ev.write(a[0], cat(seq([a[1]]), ev.deref(a[0], env)), env); return UNIT, env
@model("String::push_str", "Vec::extend_from_slice", "SmallVec::extend_from_slice", "Write::write_str", "Add_::add_str")
def pushs(ev, a, env, gate, info):
    ev.write(a[0], cat(ev.deref(a[0], env), ev.deref(a[1], env)), env); return UNIT, env
@model("Extend::extend")
def extend(ev, a, env, gate, info):
    ts = info.prog.types[info.c["targs"][0]]["s"]
    if not seqtype(ts) and not MAPT.match(ts): return None
    w, env = consume(ev, wordof(ev, a[1], env, info, len(info.c["targs"]) - 1), env, info); env = dict(env)
    if MAPT.match(ts): ev.write(a[0], map_collect(ev, w, ev.deref(a[0], env), env, "Set<" in ts[:40]), env); return UNIT, env
    if ts == "std::string::String": w = texts(ev, w, " ".join(info.prog.types[x]["s"] for x in info.c["targs"] if isinstance(x, int)))
    ev.write(a[0], cat(ev.deref(a[0], env), w), env); return UNIT, env
@model("Vec::append", "SmallVec::append", "VecDeque::append")
def append(ev, a, env, gate, info):
    w = ev.deref(a[1], env)
    ev.write(a[0], cat(ev.deref(a[0], env), w), env); ev.write(a[1], NIL, env); return UNIT, env
@model("Vec::insert", "SmallVec::insert")
def insert(ev, a, env, gate, info):
    w = ev.deref(a[0], env); env = dict(env)
    env["panic"] = bor(env["panic"], on_cmp(a[1], length(w), FALSE, FALSE, TRUE))
    ev.write(a[0], cat(seg(w, lit(0), a[1]), seq([a[2]]), seg(w, a[1], length(w))), env); return UNIT, env
@model("SmallVec::insert_many")
def insert_many(ev, a, env, gate, info):
    w = ev.deref(a[0], env)
    m, env = consume(ev, wordof(ev, a[2], env, info, len(info.c["targs"]) - 1), env, info); env = dict(env)
    env["panic"] = bor(env["panic"], on_cmp(a[1], length(w), FALSE, FALSE, TRUE))
    ev.write(a[0], cat(seg(w, lit(0), a[1]), m, seg(w, a[1], length(w))), env); return UNIT, env
@model("SmallVec::spilled")
def spilled(ev, a, env, gate, info):
    # certainly on the heap past the inline capacity, otherwise it depends on the history
    m = re.search(r";\s*(\d+)\]", info.prog.types[info.c["targs"][0]]["s"]); w = ev.deref(a[0], env)
    if not m: return None
    x = mk("fn", "spilled", False, w)
    return on_cmp(length(w), lit(int(m.group(1))), x, x, TRUE), env
def inline_cap(info):
    m = re.search(r";\s*(\d+)\]", info.prog.types[info.c["targs"][0]]["s"])
    return int(m.group(1)) if m else None
# facts about the layout of a type parameter: every answer is possible
def tparam(info, i=0):
    t = info.prog.types[info.c["targs"][i]] if len(info.c.get("targs") or ()) > i else None
    return lit(t["s"]) if t and t["k"] == "param" else None
@model("mem::size_of", "mem::align_of", "mem::size_of_val", "mem::align_of_val")
def sizeof(ev, a, env, gate, info):
    t = tparam(info)
    if t is not None: return (mk("fn", "size_of", False, t) if "size_of" in info.short else lit(8)), env
    s = info.prog.types[info.c["targs"][0]]["s"]
    m = re.match(r"[iu](8|16|32|64|128)$", s)
    if m and "align" not in info.short: return lit(int(m.group(1)) // 8), env
    if s in ("usize", "isize"): return lit(8), env
    if s in ("()",) and "align" not in info.short: return lit(0), env
    return None
@model("mem::needs_drop")
def needsdrop(ev, a, env, gate, info):
    t = tparam(info)
    return (mk("fn", "needs_drop", False, t), env) if t is not None else None
@model("TypeId::of")
def typeidof(ev, a, env, gate, info):
    t = info.prog.types[info.c["targs"][0]]
    return con("typeid", 0, 1, [lit(t["s"]), lit(t["k"] == "param")]), env
@model("SmallVec::inline_size")
def inline_size(ev, a, env, gate, info):
    n = inline_cap(info)
    return (lit(n), env) if n is not None else None
@model("SmallVec::capacity")
def sv_capacity(ev, a, env, gate, info):
    n = inline_cap(info); w = ev.deref(a[0], env)
    if n is None: return None
    big = add(length(w), mk("fn", "spare", False, w))
    small = case(mk("fn", "spilled", False, w), [(0, lit(n)), (1, big)])
    return on_cmp(length(w), lit(n), small, small, big), env
@model("Vec::capacity", "VecDeque::capacity")
def v_capacity(ev, a, env, gate, info):
    # how much room there is beyond the contents is unspecified
    w = ev.deref(a[0], env)
    return add(length(w), mk("fn", "spare", False, w)), env
@model("Vec::remove", "SmallVec::remove")
def vremove(ev, a, env, gate, info):
    w = ev.deref(a[0], env); i = a[1]
    v = idx(w, i)
    if litval(i) == 0: _, r = hdtl(w); 
    else: r = cat(seg(w, lit(0), i), seg(w, add(i, lit(1)), length(w)))
    # panics when out of range
    env = dict(env)
    oob = on_cmp(i, length(w), FALSE, TRUE, TRUE)
    env["panic"] = bor(env["panic"], oob)
    ev.write(a[0], r, env); return v, env
@model("Vec::swap_remove", "SmallVec::swap_remove")
def vswapremove(ev, a, env, gate, info):
    w = ev.deref(a[0], env); i = a[1]
    env = dict(env)
    env["panic"] = bor(env["panic"], on_cmp(i, length(w), FALSE, TRUE, TRUE))
    n1 = add(length(w), lit(1), -1)
    it, la = initlast(w)
    r = on_cmp(i, n1, cat(seg(w, lit(0), i), seq([la]), seg(it, add(i, lit(1)), n1)), it, it)
    v = idx(w, i)
    ev.write(a[0], r, env); return v, env
@model("Vec::truncate", "SmallVec::truncate")
def truncate(ev, a, env, gate, info):
    w = ev.deref(a[0], env)
    ev.write(a[0], on_cmp(a[1], length(w), seg(w, lit(0), a[1]), w, w), env); return UNIT, env
@model("Vec::split_off", "VecDeque::split_off")
def split_off(ev, a, env, gate, info):
    w = ev.deref(a[0], env); env = dict(env)
    env["panic"] = bor(env["panic"], on_cmp(a[1], length(w), FALSE, FALSE, TRUE))
    ev.write(a[0], seg(w, lit(0), a[1]), env); return seg(w, a[1], length(w)), env
@model("Vec::drain", "SmallVec::drain", "VecDeque::drain")
def drain(ev, a, env, gate, info):
    w = ev.deref(a[0], env); i = ev.deref(a[1], env)
    if i is ZST or (i.op == "con" and i.a[0].endswith("RangeFull")):
        ev.write(a[0], NIL, env); return w, env
    if not israng(i): return None
    r = rng(i, w)
    if r is None: return None
    ev.write(a[0], cat(seg(w, lit(0), r[0]), seg(w, r[1], length(w))), env)
    return slice_(w, *r), env
@model("slice::split_at")
def split_at(ev, a, env, gate, info):
    w = ev.deref(a[0], env); env = dict(env)
    env["panic"] = bor(env["panic"], on_cmp(a[1], length(w), FALSE, FALSE, TRUE))
    return tup([seg(w, lit(0), a[1]), seg(w, a[1], length(w))]), env
@model("Vec::clear", "SmallVec::clear", "String::clear")
def clear(ev, a, env, gate, info):
    ev.write(a[0], NIL, env); return UNIT, env
@model("Vec::reserve", "SmallVec::reserve", "String::reserve", "Vec::shrink_to_fit", "mem::drop", "SmallVec::shrink_to_fit", "mem::forget_", "Vec::reserve_exact")
def noop(ev, a, env, gate, info):
    if "reserve" in info.short: ev.flags.add("sized-buffer")
    return UNIT, env
@model("Vec::pop", "SmallVec::pop", "VecDeque::pop_back")
def pop(ev, a, env, gate, info):
    w = ev.deref(a[0], env); i, l = initlast(w); u = uncons(w)
    ev.write(a[0], case(u, [(0, w), (1, i)]), env)
    return case(u, [(0, NONE), (1, some(l))]), env
@model("VecDeque::pop_front")
def popf(ev, a, env, gate, info):
    w = ev.deref(a[0], env); h, t = hdtl(w); u = uncons(w)
    ev.write(a[0], case(u, [(0, w), (1, t)]), env)
    return case(u, [(0, NONE), (1, some(h))]), env
@model("slice::reverse")
def reverse(ev, a, env, gate, info):
    ev.write(a[0], rev(ev.deref(a[0], env)), env); return UNIT, env
@model("slice::len", "Vec::len", "SmallVec::len", "String::len", "str::len", "ExactSizeIterator::len", "VecDeque::len", "Iterator::count")
def vlen(ev, a, env, gate, info):
    w, env = consume(ev, a[0], env, info); return length(w), env
@model("slice::is_empty", "Vec::is_empty", "SmallVec::is_empty", "String::is_empty", "str::is_empty", "VecDeque::is_empty")
def isempty(ev, a, env, gate, info):
    return case(uncons(ev.deref(a[0], env)), [(0, TRUE), (1, FALSE)]), env
@model("slice::first", "Vec::first", "VecDeque::front")
def first(ev, a, env, gate, info):
    w = ev.deref(a[0], env); return case(uncons(w), [(0, NONE), (1, some(hdtl(w)[0]))]), env
@model("slice::last", "VecDeque::back")
def last(ev, a, env, gate, info):
    w = ev.deref(a[0], env); return case(uncons(w), [(0, NONE), (1, some(initlast(w)[1]))]), env
@model("Iterator::last")
def ilast(ev, a, env, gate, info):
    w, env = consume(ev, a[0], env, info); return case(uncons(w), [(0, NONE), (1, some(initlast(w)[1]))]), env
@model("slice::first_mut")
def firstm(ev, a, env, gate, info):
    w = ev.deref(a[0], env); return case(uncons(w), [(0, NONE), (1, some(ev.ext(a[0], ("hd",))))]), env
@model("slice::last_mut")
def lastm(ev, a, env, gate, info):
    w = ev.deref(a[0], env); return case(uncons(w), [(0, NONE), (1, some(ev.ext(a[0], ("last",))))]), env
@model("slice::split_first")
def splitf(ev, a, env, gate, info):
    w = ev.deref(a[0], env); h, t = hdtl(w)
    return case(uncons(w), [(0, NONE), (1, some(tup([h, t])))]), env
@model("slice::split_last")
def splitl(ev, a, env, gate, info):
    w = ev.deref(a[0], env); i, l = initlast(w)
    return case(uncons(w), [(0, NONE), (1, some(tup([l, i])))]), env
def israng(t): return t.op == "con" and t.a[0].startswith("std::ops::Range")
def rng(r, w):
    n = r.a[0].split("::")[-1]; f = r.a[3:]
    if n == "Range": return f[0], f[1]
    if n == "RangeFrom": return f[0], length(w)
    if n == "RangeTo": return lit(0), f[0]
    if n == "RangeFull": return lit(0), length(w)
    return None
@model("slice::get", "SmallVec::get", "Vec::get", "VecDeque::get")
def get(ev, a, env, gate, info):
    w = ev.deref(a[0], env); i = a[1]
    if israng(i):
        r = rng(i, w)
        if r is None: return None
        ok_ = on_cmp(r[0], r[1], on_cmp(r[1], length(w), TRUE, TRUE, FALSE), on_cmp(r[1], length(w), TRUE, TRUE, FALSE), FALSE)
        return case_bool(ok_, some(slice_(w, *r)), NONE), env
    if litval(i) == 0: return case(uncons(w), [(0, NONE), (1, some(hdtl(w)[0]))]), env
    return on_cmp(i, length(w), some(idx(w, i)), NONE, NONE), env
@model("slice::get_mut")
def getm(ev, a, env, gate, info):
    w = ev.deref(a[0], env); i = a[1]
    if israng(i):
        r = rng(i, w)
        if r is None: return None
        ok_ = on_cmp(r[0], r[1], on_cmp(r[1], length(w), TRUE, TRUE, FALSE), on_cmp(r[1], length(w), TRUE, TRUE, FALSE), FALSE)
        return case_bool(ok_, some(ev.ext(a[0], ("seg",) + tuple(r))), NONE), env
    return on_cmp(i, length(w), some(ev.ext(a[0], ("idx", i))), NONE, NONE), env
def slice_(w, lo, hi):
    if litval(lo) == 1 and hi is length(w): return hdtl(w)[1]
    if litval(lo) == 0 and hi is add(length(w), lit(1), -1): return initlast(w)[0]
    return seg(w, lo, hi)
@model("Index::index")
def index(ev, a, env, gate, info):
    t = info.prog.types[info.c["targs"][0]]["s"]
    if not seqtype(t): return None
    w = ev.deref(a[0], env); i = ev.deref(a[1], env)
    if israng(i):
        r = rng(i, w)
        if r is None: return None
        env = dict(env)
        if r[1] is not length(w): env["panic"] = bor(env["panic"], on_cmp(r[1], length(w), FALSE, FALSE, TRUE))
        if litval(r[0]) != 0: env["panic"] = bor(env["panic"], on_cmp(r[0], r[1], FALSE, FALSE, TRUE))
        return slice_(w, *r), env
    env = dict(env)
    env["panic"] = bor(env["panic"], on_cmp(i, length(w), FALSE, TRUE, TRUE))
    return idx(w, i), env
@model("IndexMut::index_mut")
def indexm(ev, a, env, gate, info):
    t = info.prog.types[info.c["targs"][0]]["s"]
    if not seqtype(t): return None
    w = ev.deref(a[0], env)
    i = ev.deref(a[1], env)
    if israng(i):
        r = rng(i, w)
        if r is None: return None
        env = dict(env)
        if r[1] is not length(w): env["panic"] = bor(env["panic"], on_cmp(r[1], length(w), FALSE, FALSE, TRUE))
        if litval(r[0]) != 0: env["panic"] = bor(env["panic"], on_cmp(r[0], r[1], FALSE, FALSE, TRUE))
        return ev.ext(a[0], ("seg",) + tuple(r)), env
    env = dict(env); env["panic"] = bor(env["panic"], on_cmp(a[1], length(w), FALSE, TRUE, TRUE))
    return ev.ext(a[0], ("idx", a[1])), env
@model("slice::concat", "Join::concat", "Concat::concat")
def concat(ev, a, env, gate, info):
    w = ev.deref(a[0], env); return flatmap(w, lambda x: x), env
@model("vec::from_elem")
def from_elem(ev, a, env, gate, info):
    return map1(range_(lit(0), a[1]), lambda x: a[0]), env

# ---- mem
@model("Clone::clone_from")
def clonefrom(ev, a, env, gate, info):
    """the default: overwrite with a clone"""
    ev.write(a[0], ev.deref(a[1], env), env); return UNIT, env
@model("mem::replace")
def mreplace(ev, a, env, gate, info):
    old = ev.read(a[0], env); ev.write(a[0], a[1], env); return old, env
@model("mem::take")
def mtake(ev, a, env, gate, info):
    t = info.prog.types[info.c["targs"][0]]
    if seqtype(t["s"]): z = NIL
    elif t["s"].startswith("std::option::Option<"): z = NONE
    else: z = mk("fn", "default:" + t["s"], True)
    old = ev.read(a[0], env); ev.write(a[0], z, env); return old, env
@model("mem::swap")
def mswap(ev, a, env, gate, info):
    x, y = ev.read(a[0], env), ev.read(a[1], env); ev.write(a[0], y, env); ev.write(a[1], x, env); return UNIT, env
@model("Option::take")
def otake(ev, a, env, gate, info):
    old = ev.deref(a[0], env); ev.write(a[0], NONE, env); return old, env
@model("Option::replace")
def orep(ev, a, env, gate, info):
    old = ev.deref(a[0], env); ev.write(a[0], some(a[1]), env); return old, env
@model("Option::insert")
def oins(ev, a, env, gate, info):
    ev.write(a[0], some(a[1]), env); return ev.ext(a[0], ("f", 1, 0)), env
@model("Option::as_mut")
def oasmut(ev, a, env, gate, info):
    o = ev.deref(a[0], env)
    return case(discr(o), [(0, NONE), (1, some(ev.ext(a[0], ("f", 1, 0))))]) if o.op != "con" else (NONE if o.a[1] == 0 else some(ev.ext(a[0], ("f", 1, 0)))), env
@model("Option::as_ref", "Option::cloned", "Option::copied", "Option::as_deref", "Result::as_ref", "Result::cloned", "Result::copied", "Option::as_slice_")
def oasref(ev, a, env, gate, info): return ev.deref(a[0], env), env
@model("Option::iter", "Option::into_iter")
def oiter(ev, a, env, gate, info):
    o = ev.deref(a[0], env); return opt_word(o), env
@memo
def opt_word(o): 
    if o.op == "case": return case(o.a[0], [(k, opt_word(x)) for k, x in o.a[1]])
    return case(discr(o), [(0, NIL), (1, seq([proj(1, 0, o)]))])
@memo
def res_word(o): 
    if o.op == "case": return case(o.a[0], [(k, res_word(x)) for k, x in o.a[1]])
    return case(discr(o), [(1, NIL), (0, seq([proj(0, 0, o)]))])
@model("Arc::ptr_eq", "Rc::ptr_eq")
def ptreq(ev, a, env, gate, info): return mk("fn", "ptr_eq", False, *[ev.deref(x, env) for x in a]), env
@model("ptr::eq", "ptr::addr_eq", "ptr::fn_addr_eq")
def ptr_eq2(ev, a, env, gate, info): return mk("fn", "ptr_eq", False, *[ev.deref(x, env) for x in a]), env
@model("Arc::as_ptr", "Rc::as_ptr")
def as_ptr(ev, a, env, gate, info): return ev.deref(a[0], env), env
@model("Arc::try_unwrap", "Rc::try_unwrap")
def tryunwrap(ev, a, env, gate, info):
    v = ev.deref(a[0], env)
    return case(mk("fn", "unique", False, v), [(1, ok(v)), (0, err(v))]), env
@model("Arc::get_mut", "Rc::get_mut")
def getmut(ev, a, env, gate, info):
    v = ev.deref(a[0], env)
    return case(mk("fn", "unique", False, v), [(1, some(a[0])), (0, NONE)]), env

# ---- comparison
STDENUM = ("std::option::Option", "std::result::Result", "std::cmp::Ordering", "std::ops::ControlFlow", "std::task::Poll")
def teq(ev, prog, ty, x, y, env, d=0):
    """== at a type whose equality is known: integers, references, tuples, std's sum types; else opaque"""
    t = prog.types[ty]
    if t["k"] == "param" and getattr(ev, "partial", False): return same(x, y)
    if x is y and not getattr(ev, "partial", False): return TRUE
    if d > 6: return eqt(x, y)
    if t["k"] == "ref": return teq(ev, prog, t["t"], ev.deref(x, env), ev.deref(y, env), env, d + 1)
    if t["k"] in ("int", "bool", "char"): return eqv(x, y, TRUE, FALSE)
    if t["k"] == "tuple":
        def go(i): return TRUE if i >= len(t["ts"]) else conj_(teq(ev, prog, t["ts"][i], proj(0, i, x), proj(0, i, y), env, d + 1), lambda: go(i + 1))
        return go(0)
    if t["k"] == "adt" and t["path"] in STDENUM:
        def variant(v):
            fs = t["vs"][v]["ftys"]
            def go(i): return TRUE if i >= len(fs) else conj_(teq(ev, prog, fs[i], proj(v, i, x), proj(v, i, y), env, d + 1), lambda: go(i + 1))
            return go(0)
        n = len(t["vs"])
        return case(discr(x), [(v, case(discr(y), [(w, variant(v) if w == v else FALSE) for w in range(n)])) for v in range(n)])
    return eqt(x, y)
def tcmp(ev, prog, ty, x, y, env, out, d=0):
    """three-way comparison at such a type; out: the results for less, equal (a thunk), greater"""
    t = prog.types[ty]; lt, e, gt = out
    if d > 6: return on_cmp(x, y, lt, e(), gt)
    if t["k"] == "ref": return tcmp(ev, prog, t["t"], ev.deref(x, env), ev.deref(y, env), env, out, d + 1)
    if t["k"] == "unit" or t["k"] == "tuple" and not t.get("ts"): return e()
    if t["k"] == "tuple":
        def go(i): return e() if i >= len(t["ts"]) else tcmp(ev, prog, t["ts"][i], proj(0, i, x), proj(0, i, y), env, (lt, lambda: go(i + 1), gt), d + 1)
        return go(0)
    if t["k"] == "adt" and t["path"] in STDENUM:
        def variant(v):
            fs = t["vs"][v]["ftys"]
            def go(i): return e() if i >= len(fs) else tcmp(ev, prog, fs[i], proj(v, i, x), proj(v, i, y), env, (lt, lambda: go(i + 1), gt), d + 1)
            return go(0)
        n = len(t["vs"])
        return case(discr(x), [(v, case(discr(y), [(w, variant(v) if w == v else lt if v < w else gt) for w in range(n)])) for v in range(n)])
    return on_cmp(x, y, lt, e(), gt)
@model("intrinsics::discriminant_value")
def discval(ev, a, env, gate, info):
    t = info.prog.types[info.c["targs"][0]]; x = ev.deref(a[0], env)
    if t["k"] != "adt" or not t.get("vs"): return None
    return case(discr(x), [(i, lit(v["discr"])) for i, v in enumerate(t["vs"])]), env
@model("intrinsics::unreachable", "hint::unreachable_unchecked")
def unreach(ev, a, env, gate, info): return BOT, env
@model("PartialEq::eq", "PartialEq::ne")
def peq(ev, a, env, gate, info):
    if "inst" in info.c and info.prog.bodies[info.c["inst"]].get("local") and info.c.get("local"): return None
    t = info.prog.types[info.c["targs"][0]]
    x, y = ev.deref(a[0], env), ev.deref(a[1], env)
    yes, no = (TRUE, FALSE) if info.short.endswith("eq") else (FALSE, TRUE)
    if getattr(ev, "partial", False):
        r = psame(ev, info.prog, info.c["targs"][0], x, y, env, gate)
        if r is not None: return case(r[0], [(0, no), (1, yes)]), r[1]
    if x is y: return yes, env
    if x.op == "con" and y.op == "con" and x.a[0] == y.a[0] == "typeid":
        free = x.a[4].a[1] or y.a[4].a[1]
        return (case(mk("fn", "typeid_eq", False, *sorted((x.a[3], y.a[3]), key=lambda v: v.id)), [(0, no), (1, yes)]) if free else no), env
    while t["k"] == "ref": t = info.prog.types[t["t"]]
    if t["k"] in ("int", "bool", "char"): return eqv(x, y, yes, no), env
    if t["k"] == "adt" and t.get("local") and info.short.endswith("ne") and "inst" in info.c:
        for b in info.prog.bodies[info.c["inst"]].get("blocks", []):
            if b and b["t"][0] == "call" and b["t"][1]["path"].endswith("PartialEq::eq") and "inst" in b["t"][1]:
                v, env = ev.call_inst(info.prog, b["t"][1]["inst"], a, env, gate)
                return lnot(v), env
    return case(teq(ev, info.prog, info.c["targs"][0], a[0], a[1], env) if t["k"] in ("tuple", "adt") and len(info.c["targs"]) < 2 or info.c["targs"][:1] == info.c["targs"][1:2] else eqt(x, y), [(0, no), (1, yes)]), env
@model("Ord::cmp")
def ocmp(ev, a, env, gate, info):
    if info.c.get("local"): return None
    return tcmp(ev, info.prog, info.c["targs"][0], ev.deref(a[0], env), ev.deref(a[1], env), env, (ordc(-1), lambda: ordc(0), ordc(1))), env
SEQADT = ("Vec", "SmallVec", "VecDeque")
def pcmp(ev, prog, ty, x, y, env, gate):
    """partial_cmp where elements of a type parameter may be incomparable -> (Option<Ordering>, env), or None"""
    t = prog.types[ty]
    while t["k"] == "ref": ty = t["t"]; t = prog.types[ty]; x, y = ev.deref(x, env), ev.deref(y, env)
    if t["k"] == "param":
        r = on_cmp(x, y, some(ordc(-1)), some(ordc(0)), some(ordc(1)))
        return case(comparable(x, y), [(0, NONE), (1, r)]), env
    if t["k"] == "slice" or t["k"] == "adt" and t["path"].split("::")[-1] in SEQADT:
        et = t["t"] if t["k"] == "slice" else t["args"][0]
        return lexcmp(ev, prog, et, x, y, env, gate)
    return None
def itemtype(info, ty=None):
    """element type of a plain iterator type, where it can be read off"""
    t = info.prog.types[info.c["targs"][0] if ty is None else ty]
    if t["k"] == "ref": return itemtype(info, t["t"])
    if t["k"] == "slice": return t["t"]
    if t["k"] != "adt" or not t.get("args"): return None
    n = t["path"].split("::")[-1]
    if n in ("Cloned", "Copied"): return itemtype(info, t["args"][0])
    if n in SEQADT + ("Iter", "IntoIter", "PersistentVectorIter", "PersistentVectorIntoIter", "PersistentVector"): return t["args"][0]
    return None
def lexcmp(ev, prog, et, x, y, env, gate):
    env = dict(env); acc = ev.slot(env, some(ordc(0)))
    bad = []
    def step(z, e, g):
        o = ev.read(acc, e); r = pcmp(ev, prog, et, proj(0, 0, z), proj(0, 1, z), e, g)
        if r is None: bad.append(1); return L("next", e)
        ev.write(acc, case(discr(o), [(0, NONE), (1, case(discr(proj(1, 0, o)), [(0, o), (1, r[0]), (2, o)]))]), e)
        return L("next", e)
    tt = ev.each(zip_(x, y), env, gate, step)
    o, env = loopval(ev, tt, env, lambda lf: ev.read(acc, lf[2]))
    if bad: return None
    return case(discr(o), [(0, NONE), (1, case(discr(proj(1, 0, o)), [(0, o), (1, on_cmp(length(x), length(y), some(ordc(-1)), some(ordc(0)), some(ordc(1)))), (2, o)]))]), env
def psame(ev, prog, ty, x, y, env, gate):
    """== where an element of a type parameter need not equal itself -> (bool, env), or None"""
    t = prog.types[ty]
    while t["k"] == "ref": ty = t["t"]; t = prog.types[ty]; x, y = ev.deref(x, env), ev.deref(y, env)
    if t["k"] == "param": return same(x, y), env
    if t["k"] == "slice" or t["k"] == "adt" and t["path"].split("::")[-1] in SEQADT:
        return lexsame(ev, prog, t["t"] if t["k"] == "slice" else t["args"][0], x, y, env, gate)
    return None
def lexsame(ev, prog, et, x, y, env, gate):
    env = dict(env); acc = ev.slot(env, TRUE); bad = []
    def step(z, e, g):
        r = psame(ev, prog, et, proj(0, 0, z), proj(0, 1, z), e, g)
        if r is None: bad.append(1); return L("next", e)
        ev.write(acc, case(ev.read(acc, e), [(0, FALSE), (1, r[0])]), e)
        return L("next", e)
    tt = ev.each(zip_(x, y), env, gate, step)
    o, env = loopval(ev, tt, env, lambda lf: ev.read(acc, lf[2]))
    if bad: return None
    return eqv(length(x), length(y), o, FALSE), env
def pord(n, v):
    r = {"lt": (TRUE, FALSE, FALSE), "le": (TRUE, TRUE, FALSE), "gt": (FALSE, FALSE, TRUE), "ge": (FALSE, TRUE, TRUE)}[n]
    return case(discr(v), [(0, FALSE), (1, case(discr(proj(1, 0, v)), [(i, x) for i, x in enumerate(r)]))])
@model("PartialOrd::partial_cmp")
def opcmp(ev, a, env, gate, info):
    if info.c.get("local"): return None
    if getattr(ev, "partial", False):
        r = pcmp(ev, info.prog, info.c["targs"][0], ev.deref(a[0], env), ev.deref(a[1], env), env, gate)
        if r is not None: return r
    return tcmp(ev, info.prog, info.c["targs"][0], ev.deref(a[0], env), ev.deref(a[1], env), env, (some(ordc(-1)), lambda: some(ordc(0)), some(ordc(1)))), env
@model("PartialOrd::lt", "PartialOrd::le", "PartialOrd::gt", "PartialOrd::ge")
def oord(ev, a, env, gate, info):
    if info.c.get("local"): return None
    t = info.prog.types[info.c["targs"][0]]
    while t["k"] == "ref": t = info.prog.types[t["t"]]
    if t["k"] == "adt" and t.get("local") and "inst" in info.c:
        # std's provided method: by way of the type's own partial_cmp
        for b in info.prog.bodies[info.c["inst"]].get("blocks", []):
            if b and b["t"][0] == "call" and b["t"][1]["path"].endswith("partial_cmp") and "inst" in b["t"][1]:
                v, env = ev.call_inst(info.prog, b["t"][1]["inst"], a, env, gate)
                o = discr(proj(1, 0, v)); r = {"lt": (TRUE, FALSE, FALSE), "le": (TRUE, TRUE, FALSE), "gt": (FALSE, FALSE, TRUE), "ge": (FALSE, TRUE, TRUE)}[info.short[-2:]]
                return case(discr(v), [(0, FALSE), (1, case(o, [(0, r[0]), (1, r[1]), (2, r[2])]))]), env
        return None
    if getattr(ev, "partial", False):
        q = pcmp(ev, info.prog, info.c["targs"][0], ev.deref(a[0], env), ev.deref(a[1], env), env, gate)
        if q is not None: return pord(info.short[-2:], q[0]), q[1]
    r = {"lt": (TRUE, FALSE, FALSE), "le": (TRUE, TRUE, FALSE), "gt": (FALSE, FALSE, TRUE), "ge": (FALSE, TRUE, TRUE)}[info.short[-2:]]
    return tcmp(ev, info.prog, info.c["targs"][0], ev.deref(a[0], env), ev.deref(a[1], env), env, (r[0], lambda: r[1], r[2])), env
@model("Ord::max", "Ord::min", "cmp::max", "cmp::min")
def omax(ev, a, env, gate, info):
    if info.c.get("local"): return None
    x, y = a[0], a[1]
    # std: max returns the second on ties, min the first
    if info.short.endswith("max"): return on_cmp(x, y, y, y, x), env
    return on_cmp(x, y, x, x, y), env

def arith(o):
    def f(ev, a, env, gate, info):
        t = info.prog.types[info.c["targs"][0]]
        while t["k"] == "ref": t = info.prog.types[t["t"]]
        x, y = ev.deref(a[0], env), ev.deref(a[1], env)
        if t["k"] == "int": return ev.binop(o, x, y), env
        if o == "Add" and t["s"] == "std::string::String": return cat(x, y), env
        return None
    return f
MODELS["Add::add"] = arith("Add"); MODELS["Sub::sub"] = arith("Sub"); MODELS["Mul::mul"] = arith("Mul")
@model("AddAssign::add_assign")
def addassign(ev, a, env, gate, info):
    t = info.prog.types[info.c["targs"][0]]
    x, y = ev.deref(a[0], env), ev.deref(a[1], env)
    if t["s"] == "std::string::String": ev.write(a[0], cat(x, y), env); return UNIT, env
    if t["k"] == "int": ev.write(a[0], add(x, y), env); return UNIT, env
    return None
@model("Not::not")
def not_(ev, a, env, gate, info):
    t = info.prog.types[info.c["targs"][0]]
    x = ev.deref(a[0], env)
    while t["k"] == "ref": t = info.prog.types[t["t"]]
    if t["k"] == "bool": return lnot(x), env
    return None

# ---- futures: poll is modelled as completion (await)
def await_(ev, f, env, gate):
    def go(f, env, gate):
        while f.op == "mref" and ev.read(f, env).op == "mref": f = ev.read(f, env)
        f0 = f; f = ev.deref(f, env)
        if f.op == "case": return ev.split(f, env, gate, go)
        if f.op == "cor":
            prog = PROGS[f.a[0]]; i = f.a[1]
            env = dict(env); s = ev.slot(env, f)
            return ev.call_inst(prog, i, [s, unk("ctx")], env, gate)
        if f.op == "fn" and f.a[0] == "ready": return f.a[2], env
        if f.op == "fn" and f.a[0] == "pollfn":
            v, env = ev.apply(f.a[2], [unk("ctx")], env, gate)
            if v.op == "con" and v.a[1] == 0: return v.a[3], env
            return mk("unk", "pending", v), env
        if f.op == "con" and f.a[0] == "MaybeDone":
            if f.a[1] == 0:
                v, env = await_(ev, f.a[3], env, gate); env = dict(env)
                ev.write(f0, con("MaybeDone", 1, 3, [v]), env)
            return UNIT, env
        if f.op == "fn" and f.a[0] == "catchfut": return caught(ev, lambda e: await_(ev, f.a[2], e, gate), env)
        if f.op == "con" and f.a[0].endswith("AssertUnwindSafe"): return go(f.a[3], env, gate)
        if f.op == "bot": return BOT, env
        env = dict(env)
        env["trace"] = cat(env["trace"], seq([mk("ev", mk("fndef_", "await"), f)]))
        return mk("fn", "await", True, f), env
    return go(f, env, gate)
@model("Future::poll")
def poll(ev, a, env, gate, info):
    v, env = await_(ev, a[0], env, gate)
    return con(POLL, 0, 2, [v]), env
@model("Poll::is_pending")
def is_pending(ev, a, env, gate, info): return case(discr(ev.deref(a[0], env)), [(0, FALSE), (1, TRUE)]), env
@model("Poll::is_ready")
def is_ready(ev, a, env, gate, info): return case(discr(ev.deref(a[0], env)), [(0, TRUE), (1, FALSE)]), env
@model("Rotator::num_skip", "BiasedRotator::num_skip")
def num_skip(ev, a, env, gate, info): return lit(0), env
@model("future::poll_fn", "poll_fn::poll_fn")
def poll_fn(ev, a, env, gate, info): return mk("fn", "pollfn", True, a[0]), env
@model("support::maybe_done", "maybe_done::maybe_done", "future::maybe_done")
def maybe_done(ev, a, env, gate, info): return con("MaybeDone", 0, 3, [a[0]]), env
@model("MaybeDone::take_output")
def take_output(ev, a, env, gate, info):
    m = ev.deref(a[0], env)
    if m.op == "con" and m.a[1] == 1:
        env = dict(env); ev.write(a[0], con("MaybeDone", 2, 3, []), env); return some(m.a[3]), env
    return None
@model("future::ready")
def fready(ev, a, env, gate, info): return mk("fn", "ready", True, a[0]), env
@model("future::join_all", "join_all::join_all")
def join_all(ev, a, env, gate, info):
    """the calls that make the futures come first; completion in order"""
    w, env = consume(ev, wordof(ev, a[0], env, info), env, info); env = dict(env)
    def one(f):
        v, e = await_(ev, f, {**env, "trace": NIL, "panic": FALSE}, gate)
        if e["panic"] is not FALSE: ev.flags.add("term:join_all")
        return v, e["trace"]
    def go(p):
        if p.op == "word":
            rs = [go(q) for q in p.a]; return cat(*[r[0] for r in rs]), cat(*[r[1] for r in rs])
        if p.op == "unit": v, t = one(p.a[0]); return seq([v]), t
        if p.op == "fmap" and single_body(p.a[1]) is not None:
            x = fresh(); v, t = one(subst(single_body(p.a[1]), {mk("bv", p.a[1].a[0], 0): x}))
            return fmap_(p.a[0], close(seq([v]), [x])), fmap_(p.a[0], close(t, [x]))
        x = fresh(); v, t = one(x)
        return fmap_(p, close(seq([v]), [x])), fmap_(p, close(t, [x]))
    v, t = go(w)
    env["trace"] = cat(env["trace"], t)
    return mk("fn", "ready", True, v), env
@model("IntoFuture::into_future")
def intofut(ev, a, env, gate, info): return a[0], env

def caught(ev, run, env):
    """catch_unwind: Ok of the value, or Err of an unknown payload when the call unwinds (which the caller cannot tell from the value)"""
    outer = env["panic"]
    e = dict(env); e["panic"] = FALSE; before = e["trace"]; e["trace"] = NIL
    v, e = run(e)
    e = dict(e); p = e["panic"]; e["panic"] = outer; tr = e["trace"]; e["trace"] = cat(before, tr)
    un = mk("fn", "unwinds", True, v, tr)
    r = case(un, [(0, ok(v)), (1, err(mk("fn", "payload", True, v, tr)))])
    return (on_panic(p, r, err(mk("fn", "payload", True, UNIT, tr))) if p is not FALSE else r), e
def on_panic(p, ok_, bad):
    if p is TRUE: return bad
    if p.op == "case": return case(p.a[0], [(k, on_panic(x, ok_, bad)) for k, x in p.a[1]])
    if p is FALSE: return ok_
    return case(p, [(0, ok_), (1, bad)])
@model("panic::catch_unwind", "panicking::catch_unwind", "panicking::try")
def catch_unwind(ev, a, env, gate, info):
    f = ev.deref(a[0], env)
    if f.op == "con" and f.a[0].endswith("AssertUnwindSafe"): f = f.a[3]
    return caught(ev, lambda e: ev.apply(f, [], e, gate), env)
@model("downcast_ref", "Any::downcast_ref", "any::downcast_ref")
def downcast_ref(ev, a, env, gate, info):
    """what type a payload has is a fact of the payload"""
    t = info.prog.types[info.c["targs"][-1]]["s"]; x = ev.deref(a[0], env)
    return case(mk("fn", "isa:" + t, True, x), [(0, NONE), (1, some(mk("fn", "as:" + t, True, x)))]), env
@model("FutureExt::catch_unwind")
def catch_unwind_fut(ev, a, env, gate, info): return mk("fn", "catchfut", True, a[0]), env
@model("FutureExt::boxed", "FutureExt::boxed_local")
def boxed(ev, a, env, gate, info): return a[0], env
@model("Handle::spawn_blocking", "task::spawn_blocking", "Runtime::spawn_blocking", "blocking::spawn_blocking")
def spawn_blocking(ev, a, env, gate, info):
    v, env = ev.apply(ev.deref(a[-1], env), [], env, gate)
    return mk("fn", "ready", True, ok(v)), env
@model("Runtime::block_on", "Handle::block_on", "executor::block_on", "local_pool::block_on")
def block_on(ev, a, env, gate, info): return await_(ev, a[-1], env, gate)
@model("time::sleep", "Lazy::get")
def quiet(ev, a, env, gate, info):
    """outside the model, but calls nothing of the caller's"""
    return mk("fn", info.short, False, *[ev.deref(x, env) for x in a]), env
@model("Handle::current")
def hcur(ev, a, env, gate, info): return unk("handle"), env

# ---- panics
@model("panicking::panic", "panicking::panic_fmt", "rt::begin_panic", "option::unwrap_failed", "option::expect_failed", "result::unwrap_failed", "panicking::unreachable_display", "panicking::panic_display")
def panic(ev, a, env, gate, info):
    env = dict(env); env["panic"] = TRUE; return BOT, env

# ---- vec![..]
@memo
def innerseq(v):
    while v.op == "upd": v = v.a[3]
    if v.op == "case": return case(v.a[0], [(k, innerseq(x)) for k, x in v.a[1]])
    return v
@model("boxed::box_assume_init_into_vec_unsafe")
def boxvec(ev, a, env, gate, info): return innerseq(ev.deref(a[0], env)), env
@model("Box::new_uninit")
def newuninit(ev, a, env, gate, info): return mk("uninit"), env

# ---- iterators
@memo
def is_local_iter(v):
    if v.op == "case": return any(is_local_iter(x) for _, x in v.a[1])
    return v.op == "con" and v.a[0] not in (OPT, RES, "std::ops::Range", "std::ops::RangeInclusive", "$view") and not v.a[0].endswith(("::PersistentVectorIter", "::PersistentVectorIntoIter"))
def as_word(ev, v, env):
    """iterator / collection value -> word"""
    memo_ = {}
    def go(v):
        if v.op != "case": return as_word1(ev, v, env)
        r = memo_.get(v)
        if r is None: r = memo_[v] = case(v.a[0], [(k, go(x)) for k, x in v.a[1]])
        return r
    return go(ev.deref(v, env))
def as_word1(ev, v, env):
    v = ev.deref(v, env)
    if v.op == "con" and v.a[0].endswith(("::PersistentVectorIter", "::PersistentVectorIntoIter")): return pvec.drop_(pvec.av(v.a[3]), v.a[4])
    if v.op == "case": return case(v.a[0], [(k, as_word(ev, x, env)) for k, x in v.a[1]])
    if v.op == "con":
        if v.a[0] == OPT: return opt_word(v)
        if v.a[0] == RES: return res_word(v)
        if v.a[0] == "std::ops::Range": return range_(v.a[3], v.a[4])
        if v.a[0] == "$view":
            x = fresh(); return fmap_(v.a[4], close(seq([opened(v.a[3], [x])]), [x]))
        if v.a[0] == "std::ops::RangeInclusive": return range_(v.a[3], add(v.a[4], lit(1)))
        # an iterator defined elsewhere: its elements and the calls it makes are not known here
        ev.flags.update(("opaque-call", "eager"))
        if has_op(v, ("mref", "mcell")): ev.flags.add("lost-write:iterator")
        return mk("unk", "iterator", v)
    return v
def wordof(ev, a, env, info, i=0):
    v = ev.deref(a, env)
    ti = info.c["targs"][i] if len(info.c["targs"]) > i else None
    if ti is not None and v.op not in ("word", "con", "case", "lit"):
        t = info.prog.types[ti]
        while t["k"] == "ref": t = info.prog.types[t["t"]]
        if t["s"].startswith("std::option::") : return opt_word(v)
        if t["s"].startswith("std::result::"): return res_word(v)
        if t["s"].startswith("std::ops::Range<"): return range_(proj(0, 0, v), proj(0, 1, v))
    return as_word(ev, v, env)
def consume(ev, a, env, info, i=0):
    """fully run an iterator: its values, and its pending effects appended to the trace"""
    w = as_word(ev, a, env)
    if has_eff(w):
        env = dict(env); env["trace"] = cat(env["trace"], eff_of(w)); w = strip_eff(w)
    return w, env

@model("IntoIterator::into_iter")
def intoiter(ev, a, env, gate, info):
    t = info.prog.types[info.c["targs"][0]]
    if "inst" in info.c and (info.c.get("local") or not t["s"].startswith(("std::option::Option<", "std::result::Result<"))): return None
    if t["k"] == "ref" and t["mut"] or t["s"].startswith("std::slice::IterMut"): return itermut(ev, a, env, gate, info)
    if info.c.get("local"): return None
    v = ev.deref(a[0], env)
    if is_local_iter(v): return a[0], env
    return wordof(ev, a[0], env, info), env
@model("slice::from_ref", "array::from_ref")
def slice_from_ref(ev, a, env, gate, info): return seq([ev.deref(a[0], env)]), env
@model("slice::iter_mut", "Vec::iter_mut", "SmallVec::iter_mut")
def itermut(ev, a, env, gate, info):
    def go(p):
        if p.op == "case": return case(p.a[0], [(k, go(x)) for k, x in p.a[1]])
        if p.op == "bot": return p
        if p.op == "con" and p.a[0] == "$view": return p
        if p.op == "mcell": p = ev.mc(p)
        if p.op != "mref": ev.flags.add("iter_mut"); return mk("unk", "iter_mut")
        q = ev.read(p, env)
        if q.op == "mref" or q.op == "case" and ev.has_mref(q): return go(q)
        if q.op == "con" and q.a[0] == "$view": return q
        ty = info.prog.types[info.c["targs"][0]]
        while ty["k"] == "ref": ty = info.prog.types[ty["t"]]
        if ty["s"].startswith("std::option::Option<"): 
            return case(discr(q), [(0, NIL), (1, seq([ev.ext(p, ("f", 1, 0, (OPT, 2, 1)))]))])
        if info.short == "IntoIterator::into_iter" and not seqtype(ty["s"]): ev.flags.add("iter_mut"); return mk("unk", "iter_mut")
        x = fresh("i")
        return con("$view", 0, 1, [close(mk("mcell", p, x), [x]), range_(lit(0), length(q))])
    return go(a[0]), env
@model("Option::iter_mut")
def optitermut(ev, a, env, gate, info):
    q = ev.deref(a[0], env)
    return case(discr(q), [(0, NIL), (1, seq([ev.ext(a[0], ("f", 1, 0, (OPT, 2, 1)))]))]), env
@model("slice::from_mut", "array::from_mut")
def slice_from_mut(ev, a, env, gate, info): return ev.ext(a[0], ("one",)), env
@model("slice::swap")
def sswap(ev, a, env, gate, info):
    w = ev.deref(a[0], env); i, j = a[1], a[2]; n = length(w)
    env = dict(env)
    for k in (i, j): env["panic"] = bor(env["panic"], on_cmp(k, n, FALSE, TRUE, TRUE))
    def sw(i, j): return cat(seg(w, lit(0), i), seq([idx(w, j)]), seg(w, add(i, lit(1)), j), seq([idx(w, i)]), seg(w, add(j, lit(1)), n))
    ev.write(a[0], on_cmp(i, j, sw(i, j), w, sw(j, i)), env); return UNIT, env

def local_iter(info):
    """adaptor applied to an iterator type of the crate itself"""
    t = info.prog.types[info.c["targs"][0]]
    while t["k"] == "ref": t = info.prog.types[t["t"]]
    return t["k"] == "adt" and t.get("local") and not t["s"].startswith("pvec::iter::")

def nonlocal_(f):
    f.nonlocal_only = True; return f

@model("Iterator::next")
def inext(ev, a, env, gate, info):
    if "inst" in info.c: return None
    r = ev.deref(a[0], env)
    if r.op == "con" and r.a[0] == "$view":
        u = uncons(r.a[4]); h, t = hdtl(r.a[4])
        ev.write(a[0], con("$view", 0, 1, [r.a[3], case(u, [(0, r.a[4]), (1, t)])]), env)
        return case(u, [(0, NONE), (1, some(opened(r.a[3], [h])))]), env
    w = as_word(ev, r, env)
    if has_eff(w): ev.flags.add("next-eff")
    u = uncons(w); h, t = hdtl(w)
    if r.op == "con" and r.a[0] == "std::ops::Range":
        ev.write(a[0], con(r.a[0], 0, 1, [case(u, [(0, r.a[3]), (1, add(r.a[3], lit(1)))]), r.a[4]]), env)
    else: ev.write(a[0], case(u, [(0, w), (1, t)]), env)
    return case(u, [(0, NONE), (1, some(h))]), env
@model("DoubleEndedIterator::next_back")
def inextb(ev, a, env, gate, info):
    if "inst" in info.c: return None
    w = as_word(ev, ev.deref(a[0], env), env)
    u = uncons(w); i, l = initlast(w)
    ev.write(a[0], case(u, [(0, w), (1, i)]), env)
    return case(u, [(0, NONE), (1, some(l))]), env

def lam_items(ev, f, env, gate, build, arg=None):
    """closure f applied per element; build(x, value) -> word of items; pending effects kept"""
    x, v, tr, pure = ev.lam1(f, env, gate, arg=arg)
    if not pure: return None
    w = build(x, v)
    if tr is not NIL: w = cat(seq([mk("effi", tr)]), w)
    return close(w, [x])

def mapper(name, build, arg=None):
    @model(name)
    def f(ev, a, env, gate, info):
        w = wordof(ev, a[0], env, info)
        if w.op == "case":
            pass
        lam = lam_items(ev, a[1], env, gate, build, arg)
        if lam is None: return stateful(ev, name, w, a, env, gate, build, arg)
        if ev.stateful and has_eff(w) and has_eff(lam): return None_unk(ev, name, a, env)
        return fmap_(w, lam), env
def None_unk(ev, name, a, env):
    ev.flags.add("stateful-closure")
    return ev.havoc(name + ":stateful", a, env)
def stateful(ev, name, w, a, env, gate, build, arg=None):
    """an adaptor whose closure changes something: run over the elements here, with the calls it makes left
    pending; exact when the iterator is consumed completely (the consumers that may stop are flagged)"""
    if has_eff(w) or ev.stateful > 3: return None_unk(ev, name, a, env)
    ev.stateful += 1
    env = dict(env); acc = ev.slot(env, NIL); trs = ev.slot(env, NIL); fs = a[1] if a[1].op == "mref" else ev.slot(env, a[1])
    def step(x, e, g):
        tr0, pn0 = e["trace"], e["panic"]; e = dict(e); e["trace"] = NIL; e["panic"] = FALSE
        v, e = ev.apply(fs, [x] if arg is None else arg(x), e, g)
        e = dict(e); tr = e["trace"]
        if e["panic"] is not FALSE: ev.flags.add("lam-panic"); e["panic"] = bor(pn0, e["panic"])
        else: e["panic"] = pn0
        e["trace"] = tr0
        o = ev.read(acc, e); items = build(x, v)
        ev.write(acc, cat(o, items), e)
        if tr is not NIL: ev.write(trs, cat(ev.read(trs, e), tr), e)
        return L("next", e)
    t = ev.each(w, env, gate, step)
    def out(lf):
        tr = ev.read(trs, lf[2])
        return cat(seq([mk("effi", tr)]), ev.read(acc, lf[2])) if tr is not NIL else ev.read(acc, lf[2])
    return loopval(ev, t, env, out)
mapper("Iterator::map", lambda x, v: word([unit(v)]))
mapper("Iterator::filter", lambda x, v: case_bool(v, seq([x]), NIL))
mapper("Iterator::inspect", lambda x, v: seq([x]))
mapper("Iterator::filter_map", lambda x, v: opt_any(v))
def opt_any(v):
    if v.op == "case": return case(v.a[0], [(k, opt_any(x)) for k, x in v.a[1]])
    return opt_word(v)
@model("Iterator::flat_map")
def iflatmap(ev, a, env, gate, info):
    w = wordof(ev, a[0], env, info)
    ut = info.prog.types[info.c["targs"][1]]
    lam = lam_items(ev, a[1], env, gate, lambda x, v: inner_word(ev, v, env, ut))
    if lam is None: return stateful(ev, "flat_map", w, a, env, gate, lambda x, v: inner_word(ev, v, env, ut))
    return fmap_(w, lam), env
def inner_word(ev, v, env, t):
    while t["k"] == "ref": t = {"k": "x", "s": t["s"][1:]}
    if v.op not in ("word", "con", "case"):
        if t["s"].startswith("std::option::Option"): return opt_word(v)
        if t["s"].startswith("std::result::Result"): return res_word(v)
    if v.op == "case": return case(v.a[0], [(k, inner_word(ev, x, env, t)) for k, x in v.a[1]])
    if t.get("local"): return mk("fn", "iter:" + t["s"], False, v)
    return as_word(ev, v, env)
@model("Iterator::flatten")
def iflatten(ev, a, env, gate, info):
    w = wordof(ev, a[0], env, info)
    # element type from the Flatten adaptor
    s = info.prog.types[info.c["targs"][0]]["s"]
    x = fresh()
    if "Option<" in s: body = opt_word(x)
    elif "Result<" in s: body = res_word(x)
    else: body = x
    return fmap_(w, close(body, [x])), env
@model("Iterator::eq", "Iterator::ne", "Iterator::cmp", "Iterator::partial_cmp", "Iterator::lt", "Iterator::le", "Iterator::gt", "Iterator::ge")
def iteq(ev, a, env, gate, info):
    if local_iter(info): return None
    x, env = consume(ev, wordof(ev, a[0], env, info), env, info); y, env = consume(ev, wordof(ev, a[1], env, info, 1), env, info)
    n = info.short.split("::")[-1]
    if getattr(ev, "partial", False) and n != "cmp":
        et = itemtype(info)
        r = (lexsame if n in ("eq", "ne") else lexcmp)(ev, info.prog, et, x, y, env, gate) if et is not None else None
        if r is None: return None
        if n in ("eq", "ne"): return case(r[0], [(0, FALSE if n == "eq" else TRUE), (1, TRUE if n == "eq" else FALSE)]), r[1]
        return (r[0] if n == "partial_cmp" else pord(n, r[0])), r[1]
    if n in ("eq", "ne"): return case(eqt(x, y), [(0, FALSE if n == "eq" else TRUE), (1, TRUE if n == "eq" else FALSE)]), env
    o = {"cmp": (ordc(-1), ordc(0), ordc(1)), "partial_cmp": (some(ordc(-1)), some(ordc(0)), some(ordc(1))),
         "lt": (TRUE, FALSE, FALSE), "le": (TRUE, TRUE, FALSE), "gt": (FALSE, FALSE, TRUE), "ge": (FALSE, TRUE, TRUE)}[n]
    return on_cmp(x, y, *o), env
@model("Ordering::is_eq", "Ordering::is_ne", "Ordering::is_lt", "Ordering::is_le", "Ordering::is_gt", "Ordering::is_ge", "Ordering::reverse")
def oris(ev, a, env, gate, info):
    o = ev.deref(a[0], env); n = info.short.split("::")[-1]
    r = {"is_eq": (FALSE, TRUE, FALSE), "is_ne": (TRUE, FALSE, TRUE), "is_lt": (TRUE, FALSE, FALSE), "is_le": (TRUE, TRUE, FALSE),
         "is_gt": (FALSE, FALSE, TRUE), "is_ge": (FALSE, TRUE, TRUE), "reverse": (ordc(1), ordc(0), ordc(-1))}[n]
    return case(discr(o), [(0, r[0]), (1, r[1]), (2, r[2])]), env
def thash(ev, prog, ty, h, x, env, d=0):
    t = prog.types[ty]
    if t["k"] == "ref": return thash(ev, prog, t["t"], h, ev.deref(x, env), env, d)
    if t["k"] == "tuple" and d < 6:
        for i, u in enumerate(t["ts"]): h = thash(ev, prog, u, h, proj(0, i, x), env, d + 1)
        return h
    if t["k"] == "adt" and t["path"] in STDENUM and d < 6:
        def variant(v):
            r = mk("fn", "hashed", True, h, lit(t["vs"][v]["discr"]))
            for i, u in enumerate(t["vs"][v]["ftys"]): r = thash(ev, prog, u, r, proj(v, i, x), env, d + 1)
            return r
        return case(discr(x), [(v, variant(v)) for v in range(len(t["vs"]))])
    return mk("fn", "hashed", True, h, x)
@model("Hash::hash")
def hhash(ev, a, env, gate, info):
    if info.c.get("local") or "inst" in info.c and info.prog.bodies[info.c["inst"]].get("local"): return None
    t = info.prog.types[info.c["targs"][0]]
    while t["k"] == "ref": t = info.prog.types[t["t"]]
    if t["k"] == "adt" and t.get("local"): return None
    if t["k"] in ("slice", "array") or t["k"] == "adt" and t["path"].split("::")[-1] in ("Vec", "SmallVec", "VecDeque"):
        # the length (not for an array), then the elements one by one
        w = ev.deref(a[0], env); env = dict(env); h = ev.deref(a[1], env)
        if t["k"] != "array": h = mk("fn", "hashed", True, h, length(w))
        et = t.get("t") if t["k"] != "adt" else next((x for x in t.get("args", []) if isinstance(x, int)), None)
        acc = ev.slot(env, h)
        def step(x, e, g):
            hx = ev.read(acc, e)
            ev.write(acc, mk("fn", "hashed", True, hx, x) if et is None else thash(ev, info.prog, et, hx, x, e), e); return L("next", e)
        tt = ev.each(w, env, gate, step)
        v, env = loopval(ev, tt, env, lambda lf: ev.read(acc, lf[2]))
        ev.write(a[1], v, env)
        return UNIT, env
    ev.write(a[1], thash(ev, info.prog, info.c["targs"][0], ev.deref(a[1], env), ev.deref(a[0], env), env), env)
    return UNIT, env
@model("Iterator::enumerate")
def ienum(ev, a, env, gate, info): return enum_(wordof(ev, a[0], env, info)), env
@model("Iterator::zip")
def izip(ev, a, env, gate, info): return zip_(wordof(ev, a[0], env, info), wordof(ev, a[1], env, info, 1)), env
@model("Iterator::chain")
def ichain(ev, a, env, gate, info): return cat(wordof(ev, a[0], env, info), wordof(ev, a[1], env, info, 1)), env
@model("Iterator::rev")
def irev(ev, a, env, gate, info): return rev(wordof(ev, a[0], env, info)), env
def skipw(w, n):
    if w.op == "case": return case(w.a[0], [(k, skipw(x, n)) for k, x in w.a[1]])
    if w.op == "con" and w.a[0] == "$view": return con("$view", 0, 1, [w.a[3], skipw(w.a[4], n)])
    for _ in range(n): w = case(uncons(w), [(0, NIL), (1, hdtl(w)[1])])
    return w
# an unstable sort may order equal elements as it likes: here, the reverse of the stable order (the
# same thing where equal elements are indistinguishable)
@model("slice::sort", "slice::sort_by", "slice::sort_by_key", "slice::sort_by_cached_key", "slice::sort_unstable", "slice::sort_unstable_by", "slice::sort_unstable_by_key")
def ssort(ev, a, env, gate, info):
    e0 = dict(env); e0["trace"] = NIL; e0["panic"] = FALSE
    x, y = fresh(), fresh(); w = ev.deref(a[0], env); n = info.short.split("::")[-1]
    if "_unstable" in n:
        if not (n == "sort_unstable" and info.prog.types[info.c["targs"][0]]["k"] in ("int", "bool", "char")): w = rev(w)
        n = n.replace("_unstable", "")
    ords = (ordc(-1), lambda: ordc(0), ordc(1))
    if n == "sort": c = tcmp(ev, info.prog, info.c["targs"][0], x, y, e0, ords)
    elif n == "sort_by":
        _, c, tr, pure = ev.lam1(a[1], env, gate, arg=lambda z: [x, y])
        if not pure or tr is not NIL: return None
    else:
        _, k1, tr, pure = ev.lam1(a[1], env, gate, arg=lambda z: [x])
        _, k2, tr, pure2 = ev.lam1(a[1], env, gate, arg=lambda z: [y])
        if not pure or tr is not NIL: return None
        c = tcmp(ev, info.prog, info.c["targs"][1], k1, k2, e0, ords) if len(info.c["targs"]) > 1 else None
    if c is None: return None
    ev.write(a[0], sort_(w, close(c, [x, y])), env); return UNIT, env
@model("slice::chunks")
def chunks(ev, a, env, gate, info):
    env = dict(env); env["panic"] = bor(env["panic"], on_cmp(a[1], lit(0), TRUE, TRUE, FALSE))
    return chunks_(ev.deref(a[0], env), a[1]), env
@model("Iterator::skip")
def iskip(ev, a, env, gate, info):
    w = wordof(ev, a[0], env, info); n = litval(a[1])
    if isinstance(n, int) and n <= 3: return viewed(skipw(w, n)), env
    return on_cmp(a[1], length(w), seg(w, a[1], length(w)), NIL, NIL), env
@model("iter::repeat")
def irepeat(ev, a, env, gate, info): return con("$repeat", 0, 1, [a[0]]), env
@model("Iterator::take")
def itake(ev, a, env, gate, info):
    r = ev.deref(a[0], env)
    if r.op == "con" and r.a[0] == "$repeat":
        x = ev.deref(r.a[3], env)
        return map1(range_(lit(0), a[1]), lambda _: x), env
    w = wordof(ev, a[0], env, info); n = litval(a[1])
    if isinstance(n, int) and n <= 2:
        def go(w, n): return NIL if n == 0 else case(uncons(w), [(0, NIL), (1, cat(seq([hdtl(w)[0]]), go(hdtl(w)[1], n - 1)))])
        return go(w, n), env
    return on_cmp(a[1], length(w), seg(w, lit(0), a[1]), w, w), env

def loopval(ev, tree, env, f):
    """collapse an each()-tree: value f(leaf)"""
    v = ev.tterm(tree, lambda lf: f(lf) if lf[1] != "PANIC" else BOT)
    return v, ev.merge_tree(tree)

@model("Iterator::fold")
def ifold(ev, a, env, gate, info):
    if local_iter(info): return None
    w = wordof(ev, a[0], env, info)
    env = dict(env); acc = ev.slot(env, a[1])
    def step(x, e, g):
        v, e = ev.apply(a[2], [ev.read(acc, e), x], e, g)
        ev.write(acc, v, e); return L("next", e)
    t = ev.each(w, env, gate, step)
    return loopval(ev, t, env, lambda lf: ev.read(acc, lf[2]))
@model("DoubleEndedIterator::rfold")
def irfold(ev, a, env, gate, info):
    w = rev(wordof(ev, a[0], env, info))
    env = dict(env); acc = ev.slot(env, a[1])
    def step(x, e, g):
        v, e = ev.apply(a[2], [ev.read(acc, e), x], e, g)
        ev.write(acc, v, e); return L("next", e)
    t = ev.each(w, env, gate, step)
    return loopval(ev, t, env, lambda lf: ev.read(acc, lf[2]))
@model("Iterator::for_each")
def iforeach(ev, a, env, gate, info):
    w = wordof(ev, a[0], env, info)
    env = dict(env); fs = a[1] if a[1].op == "mref" else ev.slot(env, a[1])
    def step(x, e, g):
        v, e = ev.apply(fs, [x], e, g); return L("next", e)
    t = ev.each(w, env, gate, step)
    return loopval(ev, t, env, lambda lf: UNIT)
@model("Iterator::reduce")
def ireduce(ev, a, env, gate, info):
    w = wordof(ev, a[0], env, info); u = uncons(w); h, tl = hdtl(w)
    def go(u, env, gate):
        if u.op == "case": return ev.split(u, env, gate, go)
        def yes(env, gate):
            env = dict(env); acc = ev.slot(env, h)
            def step(x, e, g):
                v, e = ev.apply(a[1], [ev.read(acc, e), x], e, g)
                ev.write(acc, v, e); return L("next", e)
            t = ev.each(tl, env, gate, step)
            return loopval(ev, t, env, lambda lf: some(ev.read(acc, lf[2])))
        k = keyof(u) if keyof(u) is not None else gate.get(u)
        if k == 0: return NONE, env
        if k == 1: return yes(env, gate)
        v1, e1 = yes(dict(env), {**gate, u: 1})
        return case(u, [(0, NONE), (1, v1)]), ev.merge(u, [(0, env), (1, e1)])
    return go(u, env, gate)
def search(name, leaf, done, by_ref=False):
    @model(name)
    def f(ev, a, env, gate, info):
        if local_iter(info): return None
        w = wordof(ev, a[0], env, info)
        env = dict(env)
        def step(x, e, g):
            v, e = ev.apply(a[1], [x], e, g)
            def go(v):
                if v.op == "case": return P(v.a[0], [(k, go(y)) for k, y in v.a[1]])
                d = leaf(x, v)  # (scrut, {key: value|None})
                s, m = d
                kk = keyof(s)
                def mkleaf(val):
                    if val is None: return L("next", dict(e))
                    e2 = dict(e); e2["ret"] = val; return L("found", e2)
                if kk is not None and kk in m: return mkleaf(m[kk])
                return P(s, [(k, mkleaf(val)) for k, val in m.items()])
            return go(v)
        t = ev.each(w, env, gate, step)
        v = ev.tterm(t, lambda lf: BOT if lf[1] == "PANIC" else (done if lf[1] == "done" else lf[2]["ret"]))
        e = ev.merge_tree(t); e = dict(e); e.pop("ret", None)
        return v, e
search("Iterator::any", lambda x, v: (v, {0: None, 1: TRUE}), FALSE)
search("Iterator::all", lambda x, v: (v, {0: FALSE, 1: None}), TRUE)
search("Iterator::find", lambda x, v: (v, {0: None, 1: some(x)}), NONE)
search("Iterator::find_map", lambda x, v: (discr(v), {0: None, 1: v}), NONE)
@model("Iterator::position")
def iposition(ev, a, env, gate, info):
    w = enum_(wordof(ev, a[0], env, info))
    return MODELS["Iterator::find_map_pos"](ev, [w, a[1]], env, gate, info)
@model("Iterator::find_map_pos")
def ifmp(ev, a, env, gate, info):
    env = dict(env)
    def step(x, e, g):
        v, e = ev.apply(a[1], [proj(0, 1, x)], e, g)
        def go(v):
            if v.op == "case": return P(v.a[0], [(k, go(y)) for k, y in v.a[1]])
            kk = keyof(v)
            e2 = dict(e); e2["ret"] = some(proj(0, 0, x))
            if kk == 0: return L("next", dict(e))
            if kk == 1: return L("found", e2)
            return P(v, [(0, L("next", dict(e))), (1, L("found", e2))])
        return go(v)
    t = ev.each(a[0], env, gate, step)
    v = ev.tterm(t, lambda lf: BOT if lf[1] == "PANIC" else (NONE if lf[1] == "done" else lf[2]["ret"]))
    e = dict(ev.merge_tree(t)); e.pop("ret", None)
    return v, e
@model("slice::contains")
def contains(ev, a, env, gate, info):
    return mk("fn", "contains", False, ev.deref(a[0], env), ev.deref(a[1], env)), env
@model("Iterator::partition")
def ipartition(ev, a, env, gate, info):
    w = wordof(ev, a[0], env, info)
    x, v, tr, pure = ev.lam1(a[1], env, gate)
    if not pure: return None_unk(ev, "partition", a, env)
    env = dict(env)
    wv = strip_eff(w)
    env["trace"] = cat(env["trace"], eff_of(w) if tr is NIL else inline_eff(fmap_(w, close(tr, [x]))))
    return tup([fmap_(wv, close(case_bool(v, seq([x]), NIL), [x])), fmap_(wv, close(case_bool(v, NIL, seq([x])), [x]))]), env
@model("Iterator::unzip")
def iunzip(ev, a, env, gate, info):
    w, env = consume(ev, wordof(ev, a[0], env, info), env, info)
    return tup([map1(w, lambda x: proj(0, 0, x)), map1(w, lambda x: proj(0, 1, x))]), env
@model("Iterator::try_fold", "Iterator::try_for_each")
def itryfold(ev, a, env, gate, info):
    w = wordof(ev, ev.deref(a[0], env), env, info)
    fe = info.short.endswith("for_each")
    env = dict(env); acc = ev.slot(env, UNIT if fe else a[1])
    rt = info.prog.types[info.c["targs"][-1]]["s"]
    if rt.startswith("std::option::Option"): okv, mko = 1, some
    elif rt.startswith("std::result::Result"): okv, mko = 0, ok
    elif rt.startswith("std::ops::ControlFlow"): okv, mko = 0, lambda v: con(CF, 0, 2, [v])
    else: return None
    f = a[1] if fe else a[2]
    def step(x, e, g):
        v, e = ev.apply(f, [x] if fe else [ev.read(acc, e), x], e, g)
        def go(v):
            if v.op == "case": return P(v.a[0], [(k, go(y)) for k, y in v.a[1]])
            eo = dict(e); ev.write(acc, proj(okv, 0, v), eo)
            eb = dict(e); eb["ret"] = v if v.op == "con" else rewrap(v, okv, rt)
            kk = keyof(discr(v))
            if kk == okv: return L("next", eo)
            if kk is not None: return L("found", eb)
            return P(discr(v), [(okv, L("next", eo)), (1 - okv, L("found", eb))])
        return go(v)
    t = ev.each(w, env, gate, step)
    v = ev.tterm(t, lambda lf: BOT if lf[1] == "PANIC" else (mko(ev.read(acc, lf[2])) if lf[1] == "done" else lf[2]["ret"]))
    e = dict(ev.merge_tree(t)); e.pop("ret", None)
    return v, e
def rewrap(v, okv, rt):
    if rt.startswith("std::option"): return NONE
    if rt.startswith("std::result"): return err(proj(1, 0, v))
    return con(CF, 1, 2, [proj(1, 0, v)])

def texts(ev, w, src):
    """the letters of the texts an iterator of type src yields (a String is the sequence of its letters)"""
    if re.search(r"\bchar\b|::Chars|CharIndices|&u8|Bytes", src): return w
    return flatmap(w, lambda x: ev.deref(x, {}) if x.op != "case" else x)
def collect_to(ev, w, t, info, env):
    s = t["s"]
    if s == "std::string::String": return texts(ev, w, " ".join(info.prog.types[x]["s"] for x in info.c["targs"] if isinstance(x, int)))
    if seqtype(s): return w
    if s.startswith("std::option::Option<"):
        inner = info.prog.types[t["args"][0]]
        x = fresh()
        def brk(o):
            if o.op == "case": return case(o.a[0], [(k, brk(y)) for k, y in o.a[1]])
            return case(discr(o), [(0, some(UNIT)), (1, NONE)])
        F = first_(w, close(brk(x), [x]))
        def okw(o):
            if o.op == "case": return case(o.a[0], [(k, okw(y)) for k, y in o.a[1]])
            return case(discr(o), [(1, seq([proj(1, 0, o)]))])
        vals = flatmap(w, okw)
        iv = collect_to(ev, vals, inner, info, env)
        if iv is None: return None
        return case_opt(F, lambda: some(iv), lambda p: NONE)
    if s.startswith("std::result::Result<"):
        inner = info.prog.types[t["args"][0]]
        x = fresh()
        def brk(o):
            if o.op == "case": return case(o.a[0], [(k, brk(y)) for k, y in o.a[1]])
            return case(discr(o), [(1, some(proj(1, 0, o))), (0, NONE)])
        F = first_(w, close(brk(x), [x]))
        def okw(o):
            if o.op == "case": return case(o.a[0], [(k, okw(y)) for k, y in o.a[1]])
            return case(discr(o), [(0, seq([proj(0, 0, o)]))])
        vals = flatmap(w, okw)
        iv = collect_to(ev, vals, inner, info, env)
        if iv is None: return None
        return case_opt(F, lambda: ok(iv), lambda p: err(p))
    if t["k"] == "tuple" and not t["ts"]: return UNIT
    if MAPT.match(s): return map_collect(ev, w, EMPTYMAP, env, "Set<" in s[:40])
    return mk("fn", "collect:" + re.sub(r"<.*", "", s), False, w)
def case_opt(F, none, some_):
    if F.op == "case": return case(F.a[0], [(k, case_opt(x, none, some_)) for k, x in F.a[1]])
    if F.op == "con": return none() if F.a[1] == 0 else some_(F.a[3])
    return case(discr(F), [(0, none()), (1, some_(proj(1, 0, F)))])
@model("Iterator::collect")
def icollect(ev, a, env, gate, info):
    t = info.prog.types[info.c["targs"][1]]
    if t.get("local"): return None
    w0 = wordof(ev, a[0], env, info)
    short_c = t["s"].startswith(("std::option::", "std::result::"))
    if short_c and ev.stateful: ev.flags.add("stateful-closure")
    if short_c and has_eff(w0):
        w = strip_eff(w0); env = dict(env)
        inner = info.prog.types[t["args"][0]]
        if inner["s"].startswith(("std::option::", "std::result::")):
            ev.flags.add("collect-eff")
            env["trace"] = cat(env["trace"], seq([mk("ev", lit("short-circuit"), mk("fn", "upto", True, *[w0]))]))
        else:
            # runs up to and including the first failing element
            from eval import before_eff
            bad = 0 if t["s"].startswith("std::option::") else 1
            x = fresh()
            def brk(o):
                if o.op == "case": return case(o.a[0], [(k, brk(y)) for k, y in o.a[1]])
                return case(discr(o), [(bad, some(UNIT)), (1 - bad, NONE)])
            lam = close(brk(x), [x])
            env["trace"] = cat(env["trace"], case(discr(first_(w, lam)), [(0, eff_of(w0)), (1, before_eff(w0, lam, close(NIL, [x])))]))
    else: w, env = consume(ev, w0, env, info)
    r = collect_to(ev, w, t, info, env)
    return r, env
@model("FromIterator::from_iter")
def fromiter(ev, a, env, gate, info):
    if "inst" in info.c: return None
    t = info.prog.types[info.c["targs"][0]]
    if t.get("local"): return None
    w, env = consume(ev, wordof(ev, a[0], env, info, len(info.c["targs"]) - 1), env, info)
    return collect_to(ev, w, t, info, env), env
@model("str::repeat", "slice::repeat")
def srepeat(ev, a, env, gate, info):
    return mk("fn", "repeat", False, ev.deref(a[0], env), a[1]), env
@model("iter::repeat_n")
def repn(ev, a, env, gate, info):
    return map1(range_(lit(0), a[1]), lambda x: a[0]), env
@model("Iterator::sum")
def isum(ev, a, env, gate, info):
    w, env = consume(ev, wordof(ev, a[0], env, info), env, info)
    def add_up(w):
        if w.op == "case": return case(w.a[0], [(k, add_up(x)) for k, x in w.a[1]])
        ps = parts_of(w)
        if not all(p.op == "unit" for p in ps): return mk("fn", "sum", False, w)
        r = lit(0)
        for p in ps: r = add(r, p.a[0])
        return r
    return add_up(w), env
@model("usize::abs_diff", "num::abs_diff")
def absdiff(ev, a, env, gate, info):
    return on_cmp(a[0], a[1], add(a[1], a[0], -1), lit(0), add(a[0], a[1], -1)), env
@model("slice::starts_with", "slice::ends_with")
def startswith(ev, a, env, gate, info):
    w, p = ev.deref(a[0], env), ev.deref(a[1], env); n, k = length(w), length(p)
    part = seg(w, lit(0), k) if info.short.endswith("starts_with") else seg(w, add(n, k, -1), n)
    hit = case(eqt(part, p), [(0, FALSE), (1, TRUE)])
    return on_cmp(k, n, hit, hit, FALSE), env
@model("usize::saturating_sub", "usize::checked_sub", "num::saturating_sub", "num::checked_sub")
def usub(ev, a, env, gate, info):
    x, y = ev.deref(a[0], env), ev.deref(a[1], env)
    sat = info.short.endswith("saturating_sub")
    d = add(x, y, -1)
    return on_cmp(x, y, lit(0) if sat else NONE, d if sat else some(d), d if sat else some(d)), env
@model("usize::pow", "num::pow")
def upow(ev, a, env, gate, info):
    x, y = litval(a[0]), litval(a[1])
    if not (isinstance(x, int) and isinstance(y, int) and 0 <= y < 16): return None
    return lit(x ** y), env
@model("RangeInclusive::new")
def ri(ev, a, env, gate, info): return con("std::ops::RangeInclusive", 0, 1, a), env
EXACT = ("slice::Iter", "slice::IterMut", "vec::IntoIter", "smallvec::IntoIter", "array::IntoIter", "option::IntoIter", "option::Iter", "result::IntoIter", "iter::Once", "iter::Empty", "iter::Repeat", "ops::Range", "vec_deque::Iter", "hash_map::Iter", "slice::Chunks", "vec::Drain", "smallvec::Drain")
EXACTMAP = ("Map", "Enumerate", "Rev", "Cloned", "Copied", "Peekable", "Take", "Skip", "Fuse", "Zip", "Inspect", "Chain", "StepBy")
def exact_iter(prog, t):
    """an iterator whose size_hint is its length"""
    while t["k"] == "ref": t = prog.types[t["t"]]
    if t["k"] != "adt": return False
    if any(t["path"].endswith(x) for x in EXACT): return True
    if t["path"].split("::")[-1] in EXACTMAP:
        g = [prog.types[x] for x in t["args"] if isinstance(x, int) and prog.types[x]["k"] in ("adt", "ref", "param", "alias", "proj")]
        n = 2 if t["path"].endswith(("Zip", "Chain")) else 1
        return len(g) >= n and all(exact_iter(prog, x) for x in g[:n])
    return False
@model("Iterator::size_hint")
def sh(ev, a, env, gate, info):
    w = wordof(ev, a[0], env, info)
    if exact_iter(info.prog, info.prog.types[info.c["targs"][0]]): return tup([length(w), some(length(w))]), env
    # any bounds that hold (see compare.consistent)
    return tup([mk("fn", "hint_lo", True, w), mk("fn", "hint_hi", True, w)]), env
# ---- formatting: a text is the concatenation of the template's pieces and of what the arguments write
STRS = ("str", "std::string::String", "std::borrow::Cow<'_, str>")
def peel(info, k):
    t = info.prog.types[k]
    while t["k"] in ("ref", "ptr") or t["k"] == "adt" and t["path"] in ("std::boxed::Box", "std::sync::Arc", "std::rc::Rc"):
        t = info.prog.types[t["t"] if t["k"] != "adt" else [x for x in t["args"] if isinstance(x, int)][0]]
    return t
def written(ev, kind, x, ty, via, env, gate, info):
    """what formatting x writes"""
    if via is not None:
        f = ev.slot(env, NIL)
        r, env = ev.call_inst(info.prog, via, [x, f], env, gate)
        return ev.deref(f, env), env
    x = ev.deref(x, env)
    if kind == "display" and (ty["s"] in STRS or ty["k"] == "str" or litstr(x)): return x, env
    if kind == "display" and x.op == "case" and all(litstr(y) for _, y in x.a[1]): return x, env
    return mk("fn", kind, True, x), env
def litstr(x): return x.op == "lit" and x.a[0] == "str"
def fmtarg(ev, a, env, gate, info):
    kind = info.short.split("new_")[-1]
    ty = peel(info, info.c["targs"][-1] if info.c.get("targs") else 0) if info.c.get("targs") else {"s": "", "k": ""}
    w, env = written(ev, kind, a[0], ty, info.c.get("fmtvia"), env, gate, info)
    return con("fmtarg", 0, 1, [w]), env
for k_ in ("display", "debug", "lower_hex", "upper_hex", "octal", "binary", "lower_exp", "upper_exp", "pointer"):
    model("Argument::new_" + k_, "rt::new_" + k_)(fmtarg)
def template(bs):
    """the pieces of a format template: literal texts, and (argument index or None, options)"""
    i = 0; out = []; nxt = 0
    le = lambda n: int.from_bytes(bytes(bs[i:i + n]), "little")
    while i < len(bs):
        n = bs[i]; i += 1
        if n == 0: return out
        if n < 0x80: out.append(bytes(bs[i:i + n]).decode("utf8")); i += n
        elif n == 0x80:
            k = le(2); i += 2; out.append(bytes(bs[i:i + k]).decode("utf8")); i += k
        elif n >= 0xc0:
            opts = []; ix = None
            if n & 1: opts.append(("flags", le(4))); i += 4
            if n & 2: opts.append(("width*" if n & 16 else "width", le(2))); i += 2
            if n & 4: opts.append(("prec*" if n & 32 else "prec", le(2))); i += 2
            if n & 8: ix = le(2); i += 2
            if ix is None: ix = nxt
            nxt = ix + 1
            opts = [o for o in opts if o != ("flags", 0xe0000020)]
            out.append((ix, tuple(opts)))
        else: return None
    return None
@model("Arguments::new", "Arguments::new_v1")
def fmt_new(ev, a, env, gate, info):
    t = ev.deref(a[0], env); args = [ev.deref(p.a[0], env) for p in parts_of(ev.deref(a[1], env))] if len(a) > 1 else []
    if t.op == "con" and t.a[0] == "$promoted": t = t.a[3]
    if t.op != "fn" or t.a[0] != "bytes" or args is None: return mk("fn", "fmt:new", False, *[ev.deref(x, env) for x in a]), env
    ps = template([b.a[1] for b in t.a[2:]])
    if ps is None: return mk("fn", "fmt:new", False, *[ev.deref(x, env) for x in a]), env
    arg = lambda i: (lambda x: x.a[3] if x.op == "con" and x.a[0] == "fmtarg" else mk("fn", "fmt:arg", False, x))(ev.deref(args[i], env))
    out = []
    for p in ps:
        if isinstance(p, str): out.append(lit(p))
        elif not p[1]: out.append(arg(p[0]))
        else: out.append(mk("fn", "fmt" + repr(p[1]).replace(" ", ""), True, arg(p[0]), *[arg(v) for k, v in p[1] if k.endswith("*")]))
    return cat(*out), env
@model("Arguments::from_str", "Arguments::new_const", "Arguments::from_str_nonconst", "fmt::format", "fmt::format_inner")
def fmt_str(ev, a, env, gate, info): return ev.deref(a[0], env), env
@model("Argument::from_usize", "rt::from_usize")
def fmt_usize(ev, a, env, gate, info): return con("fmtarg", 0, 1, [ev.deref(a[0], env)]), env
@model("Formatter::write_fmt", "Formatter::write_str", "Formatter::pad", "Write::write_fmt")
def fmt_write(ev, a, env, gate, info):
    ev.write(a[0], cat(ev.deref(a[0], env), ev.deref(a[1], env)), env); return ok(UNIT), env
@model("Formatter::write_char", "Write::write_char")
def fmt_char(ev, a, env, gate, info):
    c = a[1]
    ev.write(a[0], cat(ev.deref(a[0], env), lit(chr(c.a[1])) if c.op == "lit" and c.a[0] == "char" else seq([c])), env); return ok(UNIT), env
@model("Display::fmt", "Debug::fmt")
def fmt_fmt(ev, a, env, gate, info):
    if "inst" in info.c: return None
    t = peel(info, info.c["targs"][0])
    w, env = written(ev, info.short.split("::")[0].lower(), a[0], t, None, env, gate, info)
    ev.write(a[1], cat(ev.deref(a[1], env), w), env); return ok(UNIT), env
@model("ToString::to_string")
def to_string2(ev, a, env, gate, info):
    return written(ev, "display", a[0], peel(info, info.c["targs"][0]), info.c.get("fmtvia"), env, gate, info)
@model("str::starts_with", "str::ends_with", "str::contains")
def strpred(ev, a, env, gate, info):
    """facts about a text: any answer is possible for an unknown text"""
    w, p = ev.deref(a[0], env), ev.deref(a[1], env); f = info.short.split("::")[-1]
    if p.op == "lit" and p.a[0] == "char": p = lit(chr(p.a[1]))
    if not litstr(p) and p.op not in ("sym", "proj"): return None
    def go(w):
        if w.op == "case": return case(w.a[0], [(k, go(x)) for k, x in w.a[1]])
        if w.op == "bot": return BOT
        if w is NIL: w = lit("")
        if litstr(p):
            if p.a[1] == "": return TRUE
            if litstr(w): return TRUE if {"starts_with": w.a[1].startswith, "ends_with": w.a[1].endswith, "contains": w.a[1].__contains__}[f](p.a[1]) else FALSE
            ps = parts_of(w)
            if len(ps) > 1:
                e = ps[-1 if f == "ends_with" else 0]
                if litstr(e) and f != "contains" and len(e.a[1]) >= len(p.a[1]): return go(e)
                if f == "contains" and any(litstr(x) and p.a[1] in x.a[1] for x in ps): return TRUE
        rig = w.op in ("sym", "proj") or w.op == "fn" and w.a[0] in ("display", "debug")
        return case(mk("fn", "text:" + f, rig and litstr(p), w, p), [(0, FALSE), (1, TRUE)])
    return go(w), env
@model("slice::join", "slice::concat", "Join::join", "Concat::concat")
def join_(ev, a, env, gate, info):
    w = ev.deref(a[0], env)
    sep = ev.deref(a[1], env) if len(a) > 1 else NIL
    t = info.prog.types[info.c["targs"][-1]]
    if len(a) > 1 and not (t["k"] == "ref" or t["k"] == "str"): sep = seq([sep])
    def go(w):
        if w.op == "case": return case(w.a[0], [(k, go(x)) for k, x in w.a[1]])
        if w.op == "bot": return BOT
        h, r = hdtl(w); x = fresh()
        return case(uncons(w), [(0, NIL), (1, cat(h, fmap_(r, close(cat(sep, x), [x]))))])
    return go(w), env

# ---- monoid operations of a type parameter: the free monoid
def tyname(info):
    t = info.prog.types[info.c["targs"][0]]
    while t["k"] == "ref": t = info.prog.types[t["t"]]
    return t["s"]
@model("Semigroup::combine", "Semigroup::combine_owned")
def sgcombine(ev, a, env, gate, info):
    if "inst" in info.c or info.c.get("kind") != "unresolved": return None
    return mcat(tyname(info), seq([ev.deref(a[0], env), ev.deref(a[1], env)])), env
@model("Monoid::empty")
def mempty(ev, a, env, gate, info):
    if "inst" in info.c or info.c.get("kind") != "unresolved": return None
    return mk("fn", "empty:" + tyname(info), True), env

# ---- maps and sets: finite maps with last-write-wins; a set is a map to ()
EMPTYMAP = mk("fn", "emptymap", True)
def mapget(m, k):
    if m.op == "case": return case(m.a[0], [(kk, mapget(x, k)) for kk, x in m.a[1]])
    if m.op == "bot": return BOT
    if m is EMPTYMAP: return NONE
    if m.op == "fn" and m.a[0] == "mapput":
        if m.a[3] is k: return some(m.a[4])
        return case(eqt(m.a[3], k, all(x.op in ('sym', 'proj', 'bv') for x in (k, m.a[3]))), [(0, mapget(m.a[2], k)), (1, some(m.a[4]))])
    if m.op == "fn" and m.a[0] == "mapdel" and m.a[3] is k: return NONE
    return mk("fn", "mapget", m.op != "fn", m, k)
def mapput(m, k, v):
    if m.op == "case": return case(m.a[0], [(kk, mapput(x, k, v)) for kk, x in m.a[1]])
    if m.op == "bot" or v.op == "bot": return BOT
    if v.op == "case" and len(v.a[1]) <= 4 and any(x.op == "bot" for _, x in v.a[1]): pass
    if m.op == "fn" and m.a[0] in ("mapput", "mapdel") and m.a[3] is k: m = m.a[2]
    return mk("fn", "mapput", True, m, k, v)
def mapdel(m, k):
    if m.op == "case": return case(m.a[0], [(kk, mapdel(x, k)) for kk, x in m.a[1]])
    if m is EMPTYMAP: return m
    if m.op == "fn" and m.a[0] in ("mapput", "mapdel") and m.a[3] is k: m = m.a[2]
    return mk("fn", "mapdel", False, m, k)
def optcase(o, none, some_):
    if o.op == "case": return case(o.a[0], [(k, optcase(x, none, some_)) for k, x in o.a[1]])
    if o.op == "bot": return BOT
    if o.op == "con": return none if o.a[1] == 0 else some_(o.a[3])
    return case(discr(o), [(0, none), (1, some_(proj(1, 0, o)))])
MAPGET[0] = mapget; MAPGET[1] = mapput
MAPT = re.compile(r"^&?(mut )?std::collections::(HashMap|BTreeMap|HashSet|BTreeSet)<")
@model("HashMap::new", "BTreeMap::new", "HashSet::new", "BTreeSet::new", "HashMap::with_capacity", "HashSet::with_capacity", "HashMap::with_hasher", "HashSet::with_hasher")
def mapnew(ev, a, env, gate, info): return EMPTYMAP, env
def maplen(m):
    if m.op == "case": return case(m.a[0], [(k, maplen(x)) for k, x in m.a[1]])
    if m.op == "bot": return BOT
    if m is EMPTYMAP: return lit(0)
    if m.op == "fn" and m.a[0] == "mapput": return optcase(mapget(m.a[2], m.a[3]), add(maplen(m.a[2]), lit(1)), lambda v: maplen(m.a[2]))
    if m.op == "fn" and m.a[0] == "mapdel": return optcase(mapget(m.a[2], m.a[3]), maplen(m.a[2]), lambda v: add(maplen(m.a[2]), lit(1), -1))
    return unk("maplen", m)
@model("HashMap::len", "BTreeMap::len", "HashSet::len", "BTreeSet::len")
def mlen(ev, a, env, gate, info): return maplen(ev.deref(a[0], env)), env
@model("HashMap::is_empty", "BTreeMap::is_empty", "HashSet::is_empty", "BTreeSet::is_empty")
def misempty(ev, a, env, gate, info): return on_cmp(maplen(ev.deref(a[0], env)), lit(0), FALSE, TRUE, FALSE), env
@model("HashMap::capacity", "HashSet::capacity")
def mcapacity(ev, a, env, gate, info):
    m = ev.deref(a[0], env)
    return add(maplen(m), mk("fn", "spare", False, m)), env
@model("HashMap::get", "BTreeMap::get", "HashSet::get", "BTreeSet::get")
def mget(ev, a, env, gate, info):
    return mapget(ev.deref(a[0], env), ev.deref(a[1], env)), env
@model("HashMap::contains_key", "BTreeMap::contains_key", "HashSet::contains", "BTreeSet::contains")
def mhas(ev, a, env, gate, info):
    return optcase(mapget(ev.deref(a[0], env), ev.deref(a[1], env)), FALSE, lambda v: TRUE), env
@model("HashMap::get_mut", "BTreeMap::get_mut")
def mgetmut(ev, a, env, gate, info):
    k = ev.deref(a[1], env); g = mapget(ev.deref(a[0], env), k)
    return optcase(g, NONE, lambda v: some(ev.ext(a[0], ("key", k)))), env
@model("HashMap::insert", "BTreeMap::insert")
def minsert(ev, a, env, gate, info):
    k = ev.deref(a[1], env); m = ev.deref(a[0], env); old = mapget(m, k)
    ev.write(a[0], mapput(m, k, ev.deref(a[2], env)), env); return old, env
@model("HashMap::remove", "BTreeMap::remove")
def mremove(ev, a, env, gate, info):
    k = ev.deref(a[1], env); m = ev.deref(a[0], env); old = mapget(m, k)
    ev.write(a[0], mapdel(m, k), env); return old, env
@model("HashMap::clear", "BTreeMap::clear", "HashSet::clear", "BTreeSet::clear")
def mclear(ev, a, env, gate, info):
    ev.write(a[0], EMPTYMAP, env); return UNIT, env
@model("HashSet::insert", "BTreeSet::insert")
def sinsert(ev, a, env, gate, info):
    k = ev.deref(a[1], env); m = ev.deref(a[0], env); had = optcase(mapget(m, k), TRUE, lambda v: FALSE)
    ev.write(a[0], mapput(m, k, UNIT), env); return had, env
@model("HashMap::entry", "BTreeMap::entry")
def mentry(ev, a, env, gate, info):
    return con("std::map::Entry", 0, 1, [a[0], ev.deref(a[1], env)]), env
def entry_split(ev, a, env, gate, present, absent):
    e = ev.deref(a[0], env) if a[0].op == "mref" else a[0]
    if e.op != "con": return None
    r, k = e.a[3], e.a[4]
    g = mapget(ev.deref(r, env), k)
    def go(g, env, gate):
        if g.op == "case": return ev.split(g, env, gate, go)
        d = discr(g); kk = keyof(d)
        if kk is None: kk = gate.get(d)
        if kk == 0: return absent(r, k, dict(env), gate)
        if kk == 1: return present(r, k, proj(1, 0, g), dict(env), gate)
        v0, e0 = absent(r, k, dict(env), {**gate, d: 0}); v1, e1 = present(r, k, proj(1, 0, g), dict(env), {**gate, d: 1})
        return case(d, [(0, v0), (1, v1)]), ev.merge(d, [(0, e0), (1, e1)])
    return go(g, env, gate)
@model("Entry::and_modify")
def eandmod(ev, a, env, gate, info):
    def pres(r, k, v, env, gate):
        s = ev.slot(env, v)
        _, env = ev.apply(a[1], [s], env, gate)
        env = dict(env); nv = ev.deref(s, env)
        ev.write(r, mapput(ev.deref(r, env), k, nv), env)
        return con("std::map::Entry", 0, 1, [r, k]), env
    def abs_(r, k, env, gate): return con("std::map::Entry", 0, 1, [r, k]), env
    return entry_split(ev, a, env, gate, pres, abs_)
def eor(mkv):
    def f(ev, a, env, gate, info):
        def pres(r, k, v, env, gate): return ev.ext(r, ("key", k)), env
        def abs_(r, k, env, gate):
            v, env = mkv(ev, a, env, gate, info, k); env = dict(env)
            ev.write(r, mapput(ev.deref(r, env), k, v), env)
            return ev.ext(r, ("key", k)), env
        return entry_split(ev, a, env, gate, pres, abs_)
    return f
MODELS["Entry::or_insert"] = eor(lambda ev, a, env, gate, info, k: (ev.deref(a[1], env), env))
MODELS["Entry::or_insert_with"] = eor(lambda ev, a, env, gate, info, k: ev.apply(a[1], [], env, gate))
MODELS["Entry::or_insert_with_key"] = eor(lambda ev, a, env, gate, info, k: ev.apply(a[1], [k], env, gate))
def map_collect(ev, w, base, env, isset):
    """insert the items of w one after another"""
    env = dict(env); env = {"trace": NIL, "panic": FALSE}; m = ev.slot(env, base)
    def step(x, e, g):
        e = dict(e)
        k, v = (x, UNIT) if isset else (proj(0, 0, x), proj(0, 1, x))
        ev.write(m, mapput(ev.deref(m, e), k, v), e); return L("next", e)
    t = ev.each(w, env, {}, step)
    return ev.tterm(t, lambda lf: ev.deref(m, lf[2]))

# ---- locks and once-cells.  A cell known to the analysis is a shared slot; the content of any
# other cell (or of every cell, when ev.interfere is set) may have been changed by another thread
# at each acquisition: it is a fresh value.
class Acq:
    def __init__(self, n, kind, cell, fid, m, gate): self.n, self.kind, self.cell, self.fid, self.m, self.gate = n, kind, cell, fid, m, gate
def acqs(ev):
    if not hasattr(ev, "acq"): ev.acq = []; ev.reads = []
    return ev.acq
def sync_event(env, what, *vals):
    env["trace"] = cat(env["trace"], seq([mk("ev", mk("fn", "sync:" + what, True), *vals)]))
@model("Mutex::new", "RwLock::new")
def cellnew(ev, a, env, gate, info):
    env = dict(env); s = ev.slot(env, a[0])
    return con("cell", 0, 1, [s]), env
@model("OnceLock::new", "OnceCell::new")
def oncenew(ev, a, env, gate, info):
    env = dict(env); s = ev.slot(env, NONE)
    return con("cell", 0, 1, [s]), env
HELD, FREE = lit("held"), lit("free")
def heldby(ev, c, env, gate):
    h = env.get(("held", c.id))
    return FREE if h is None else ev.gs(h, gate)
def acquire(kind):
    def f(ev, a, env, gate, info):
        if "tokio" in info.path or "async_lock" in info.path: return None
        c = ev.deref(a[0], env); env = dict(env)
        known = c.op == "con" and c.a[0] == "cell"
        if known and not getattr(ev, "interfere", False): return ok(c.a[3]), env
        q = acqs(ev); n = len(q) + 1
        m = mk("sym", "content%d" % n)
        s = ev.slot(env, m)
        held = heldby(ev, c, env, gate)
        if held is HELD: sync_event(env, "deadlock", lit(n))
        elif held is not FREE: ev.flags.add("lock-state")
        q.append(Acq(n, kind, c, s.a[0], m, dict(gate)))
        env[("held", c.id)] = HELD
        sync_event(env, "acquire", lit(n))
        return ok(s), env
    return f
MODELS["Mutex::lock"] = acquire("write"); MODELS["RwLock::write"] = acquire("write"); MODELS["RwLock::read"] = acquire("read")
# A try_ variant may also come back empty-handed while another thread holds the lock: an arbitrary
# condition under interference; in a run of one thread it fails only on a lock this thread holds.
def tryacquire(kind):
    take = acquire(kind)
    def f(ev, a, env, gate, info):
        if "tokio" in info.path or "async_lock" in info.path: return None
        c = ev.deref(a[0], env)
        known = c.op == "con" and c.a[0] == "cell"
        busy = con("Result", 1, 2, [con("TryLockError", 1, 2, [])])
        if heldby(ev, c, env, gate) is HELD: return busy, env
        env = dict(env); env.setdefault(("held", c.id), FREE)
        if known and not getattr(ev, "interfere", False): return take(ev, a, env, gate, info)
        ev.ncontend = getattr(ev, "ncontend", 0) + 1
        cond = case(mk("sym", "contended%d" % ev.ncontend), [(0, lit("free")), (1, lit("busy"))])
        return ev.split(cond, env, gate, lambda v, e, g: (busy, e) if v is lit("busy") else take(ev, a, e, g, info))
    return f
MODELS["Mutex::try_lock"] = tryacquire("write"); MODELS["RwLock::try_write"] = tryacquire("write"); MODELS["RwLock::try_read"] = tryacquire("read")
def guard_id(ev, v):
    if v is not None and v.op == "mref" and hasattr(ev, "acq"):
        for q in ev.acq:
            if q.fid == v.a[0] and not v.a[2]: return q
    return None
def release(ev, v, env):
    q = guard_id(ev, v)
    if q is not None:
        env[("held", q.cell.id)] = FREE
        sync_event(env, "release", lit(q.n))
EVHOOK["release"] = release; EVHOOK["guard"] = guard_id
_nop = MODELS["mem::drop"]
@model("mem::drop")
def memdrop(ev, a, env, gate, info):
    env = dict(env); release(ev, a[0], env)
    return UNIT, env
_dm = MODELS["DerefMut::deref_mut"]
@model("DerefMut::deref_mut", "Deref::deref")
def guardderef(ev, a, env, gate, info):
    v = a[0]
    t = info.prog.types[info.c["targs"][0]]["s"] if info.c.get("targs") else ""
    if t.startswith(("std::cell::RefMut<", "std::cell::Ref<", "core::cell::RefMut<", "core::cell::Ref<")) or "MutexGuard<" in t or "RwLockReadGuard<" in t or "RwLockWriteGuard<" in t:
        x = ev.read(v, env) if v.op == "mref" else v
        return (x if ev.has_mref(x) else v), env
    return _dm(ev, a, env, gate, info) if info.short.startswith("DerefMut") else (ev.deref(v, env), env)
@model("Mutex::into_inner", "RwLock::into_inner")
def cellinto(ev, a, env, gate, info):
    c = ev.deref(a[0], env)
    if c.op == "con" and c.a[0] == "cell": return ok(ev.deref(c.a[3], env)), env
    return None
@model("Mutex::get_mut", "RwLock::get_mut")
def cellmut(ev, a, env, gate, info):
    c = ev.deref(a[0], env)
    if c.op == "con" and c.a[0] == "cell": return ok(c.a[3]), env
    return None
def cell_of(ev, v, env):
    c = ev.deref(v, env)
    return c if c.op == "con" and c.a[0] == "cell" else None
@model("Cell::new", "RefCell::new", "AtomicBool::new")
def cellnew2(ev, a, env, gate, info):
    env = dict(env); s = ev.slot(env, a[0])
    return con("cell", 0, 1, [s]), env
def cell_read(ev, c, env, gate): return ev.gs(ev.deref(c.a[3], env), gate)
def cell_op(f):
    """f(old value, args) -> (result, new value or None)"""
    def g(ev, a, env, gate, info):
        c = cell_of(ev, a[0], env)
        if c is None: return None
        env = dict(env); old = cell_read(ev, c, env, gate)
        r, new = f(old, a)
        if new is not None: ev.write(c.a[3], new, env)
        return r, env
    return g
for nm in ("Cell::get", "AtomicBool::load", "Cell::into_inner", "RefCell::into_inner", "AtomicBool::into_inner"): MODELS[nm] = cell_op(lambda o, a: (o, None))
for nm in ("Cell::set", "AtomicBool::store"): MODELS[nm] = cell_op(lambda o, a: (UNIT, a[1]))
for nm in ("Cell::replace", "RefCell::replace", "AtomicBool::swap"): MODELS[nm] = cell_op(lambda o, a: (o, a[1]))
MODELS["AtomicBool::fetch_or"] = cell_op(lambda o, a: (o, bor(o, a[1])))
MODELS["AtomicBool::fetch_and"] = cell_op(lambda o, a: (o, case_bool(o, a[1], FALSE)))
MODELS["AtomicBool::fetch_not"] = cell_op(lambda o, a: (o, lnot(o)))
MODELS["AtomicBool::fetch_xor"] = cell_op(lambda o, a: (o, case_bool(o, lnot(a[1]), a[1])))
@model("RefCell::borrow", "RefCell::borrow_mut", "RefCell::get_mut", "Cell::get_mut", "AtomicBool::get_mut")
def refborrow(ev, a, env, gate, info):
    c = cell_of(ev, a[0], env)
    return (c.a[3], env) if c is not None else None
@model("AtomicBool::compare_exchange", "AtomicBool::compare_exchange_weak")
def cas(ev, a, env, gate, info):
    c = cell_of(ev, a[0], env)
    if c is None: return None
    env = dict(env); o = cell_read(ev, c, env, gate); hit = eqt(o, a[1])
    ev.write(c.a[3], case_bool(hit, a[2], o), env)
    return case(hit, [(1, ok(o)), (0, err(o))]), env
# a counter: followed exactly while the activation that made it runs; one that was kept holds whatever the runs before left in it
@model("AtomicNum::new")
def anew(ev, a, env, gate, info):
    env = dict(env); s = ev.slot(env, a[0])
    return con("counter", 0, 1, [s, lit(info.fr.id if info.fr is not None else -1)]), env
def anum(f):
    def g(ev, a, env, gate, info):
        c = ev.deref(a[0], env)
        if c.op == "con" and c.a[0] == "counter" and c.a[4].op == "lit" and c.a[4].a[1] in ev.live:
            r = f(ev.gs(ev.deref(c.a[3], env), gate), a) if f else None
            if r is None: return None
            env = dict(env)
            if r[1] is not None: ev.write(c.a[3], r[1], env)
            return r[0], env
        ev.flags.add("memory")
        return (UNIT if info.short.endswith("::store") else fresh("memory")), env
    return g
for nm in "load fetch_add fetch_sub swap fetch_max fetch_min fetch_and fetch_or fetch_xor fetch_nand into_inner store".split():
    MODELS["AtomicNum::" + nm] = anum({"load": lambda o, a: (o, None), "into_inner": lambda o, a: (o, None), "swap": lambda o, a: (o, a[1]), "store": lambda o, a: (UNIT, a[1]),
        "fetch_add": lambda o, a: (o, add(o, a[1])), "fetch_sub": lambda o, a: (o, add(o, a[1], -1))}.get(nm))
@model("OnceLock::get", "OnceCell::get")
def onceget(ev, a, env, gate, info):
    c = ev.deref(a[0], env); env = dict(env)
    if not (c.op == "con" and c.a[0] == "cell"): return None
    x = ev.deref(c.a[3], env)
    if getattr(ev, "interfere", False):
        acqs(ev)
        o = mk("sym", "once%d" % (len(ev.reads) + 1)); ev.reads.append(o)
        x = optcase(ev.gs(x, gate), o, lambda v: some(v))
        ev.write(c.a[3], x, env)
    return x, env
@model("OnceLock::set", "OnceCell::set")
def onceset(ev, a, env, gate, info):
    c = ev.deref(a[0], env); env = dict(env)
    if not (c.op == "con" and c.a[0] == "cell"): return None
    x = ev.gs(ev.deref(c.a[3], env), gate)
    if getattr(ev, "interfere", False): sync_event(env, "set", a[1])
    ev.write(c.a[3], optcase(x, some(a[1]), lambda v: some(v)), env)
    return optcase(x, ok(UNIT), lambda v: err(a[1])), env
@model("OnceLock::get_or_init", "OnceCell::get_or_init")
def onceinit(ev, a, env, gate, info):
    c = ev.deref(a[0], env); env = dict(env)
    if not (c.op == "con" and c.a[0] == "cell"): return None
    x = ev.gs(ev.deref(c.a[3], env), gate)
    if getattr(ev, "interfere", False):
        acqs(ev); o = mk("sym", "once%d" % (len(ev.reads) + 1)); ev.reads.append(o)
        x = optcase(x, o, lambda v: some(v))
    def go(x, env, gate):
        d = discr(x); kk = keyof(d)
        if kk is None: kk = gate.get(d)
        def init(env, gate):
            if getattr(ev, "interfere", False): env = dict(env); sync_event(env, "init")
            v, env = ev.apply(a[1], [], env, gate); env = dict(env)
            if getattr(ev, "interfere", False): sync_event(env, "set", v)
            ev.write(c.a[3], some(v), env); return v, env
        if kk == 1:
            env = dict(env); ev.write(c.a[3], x, env); return proj(1, 0, x), env
        if kk == 0: return init(env, gate)
        e1 = dict(env); ev.write(c.a[3], some(proj(1, 0, x)), e1)
        v0, e0 = init(dict(env), {**gate, d: 0})
        return case(d, [(0, v0), (1, proj(1, 0, x))]), ev.merge(d, [(0, e0), (1, e1)])
    return ev.split(x, env, gate, go)
import pvec

# ---- adaptors run as the loops they are; where calls are made one by one as the consumer asks, the
# order of calls relative to the consumer's is not kept (flag "eager": calls are then not compared)
def eager(ev, w, env, gate, step, out):
    """step(x, env, gate) -> (continue?, env): continue? a boolean term; out(leaf env) -> word"""
    env = dict(env); t0 = env["trace"]
    def st(x, e, g):
        v, e = step(x, e, g)
        def go(v):
            if v.op == "case": return P(v.a[0], [(k, go(y)) for k, y in v.a[1]])
            k = keyof(v)
            if k == 0: return L("found", dict(e))
            if k == 1: return L("next", dict(e))
            return P(v, [(0, L("found", dict(e))), (1, L("next", dict(e)))])
        return go(v)
    t = ev.each(w, env, gate, st)
    v = ev.tterm(t, lambda lf: BOT if lf[1] == "PANIC" else out(lf[2]))
    e = dict(ev.merge_tree(t))
    if e["trace"] is not t0 or has_eff(w): ev.flags.add("eager")
    return v, e
@model("Iterator::take_while")
def itakewhile(ev, a, env, gate, info):
    if local_iter(info): return None
    env = dict(env); acc = ev.slot(env, NIL)
    def step(x, e, g):
        v, e = ev.apply(a[1], [x], e, g); e = dict(e)
        ev.write(acc, case_bool(v, cat(ev.read(acc, e), seq([x])), ev.read(acc, e)), e); return v, e
    return eager(ev, wordof(ev, a[0], env, info), env, gate, step, lambda e: ev.read(acc, e))
@model("Iterator::map_while")
def imapwhile(ev, a, env, gate, info):
    if local_iter(info): return None
    env = dict(env); acc = ev.slot(env, NIL)
    def step(x, e, g):
        v, e = ev.apply(a[1], [x], e, g); e = dict(e); w = ev.read(acc, e)
        ev.write(acc, case(discr(v), [(0, w), (1, cat(w, seq([proj(1, 0, v)])))]), e); return discr(v), e
    return eager(ev, wordof(ev, a[0], env, info), env, gate, step, lambda e: ev.read(acc, e))
@model("Iterator::skip_while")
def iskipwhile(ev, a, env, gate, info):
    if local_iter(info): return None
    env = dict(env); acc = ev.slot(env, NIL); on = ev.slot(env, FALSE)
    def step(x, e, g):
        o = ev.read(on, e)
        def go(o, e, g):
            if o.op == "case": return ev.split(o, e, g, go)
            def no(e, g): return ev.apply(a[1], [x], e, g)
            if o is TRUE: return FALSE, e
            if o is FALSE: return no(e, g)
            k = g.get(o)
            if k == 1: return FALSE, e
            if k == 0: return no(e, g)
            v1, e1 = no(dict(e), {**g, o: 0})
            return case(o, [(0, v1), (1, FALSE)]), ev.merge(o, [(0, e1), (1, e)])
        v, e = go(o, e, g); e = dict(e); w = ev.read(acc, e)
        ev.write(acc, case_bool(v, w, cat(w, seq([x]))), e); ev.write(on, case_bool(v, ev.read(on, e), TRUE), e)
        return TRUE, e
    return eager(ev, wordof(ev, a[0], env, info), env, gate, step, lambda e: ev.read(acc, e))
@model("Iterator::scan")
def iscan(ev, a, env, gate, info):
    if local_iter(info): return None
    env = dict(env); acc = ev.slot(env, NIL); st = ev.slot(env, a[1])
    def step(x, e, g):
        v, e = ev.apply(a[2], [st, x], e, g); e = dict(e); w = ev.read(acc, e)
        ev.write(acc, case(discr(v), [(0, w), (1, cat(w, seq([proj(1, 0, v)])))]), e); return discr(v), e
    return eager(ev, wordof(ev, a[0], env, info), env, gate, step, lambda e: ev.read(acc, e))
@model("Vec::retain", "SmallVec::retain", "VecDeque::retain", "Vec::retain_mut", "SmallVec::retain_mut", "VecDeque::retain_mut")
def vretain(ev, a, env, gate, info):
    env = dict(env); acc = ev.slot(env, NIL); w = ev.deref(a[0], env); mut = info.short.startswith("SmallVec") or info.short.endswith("retain_mut")
    f = a[1] if a[1].op == "mref" else ev.slot(env, a[1])
    def step(x, e, g):
        e = dict(e)
        p = ev.slot(e, x) if mut else x
        v, e = ev.apply(f, [p], e, g); e = dict(e)
        if mut: x = ev.read(p, e)
        ev.write(acc, case_bool(v, cat(ev.read(acc, e), seq([x])), ev.read(acc, e)), e); return L("next", e)
    t = ev.each(w, env, gate, step)
    v, e = loopval(ev, t, env, lambda lf: ev.read(acc, lf[2]))
    e = dict(e); ev.write(a[0], v, e); return UNIT, e
def pick(ev, w, env, gate, better):
    """better(acc, x, env, gate) -> (acc', env)"""
    u = uncons(w); h, tl = hdtl(w)
    def go(u, env, gate):
        if u.op == "case": return ev.split(u, env, gate, go)
        def yes(env, gate):
            env = dict(env); acc = ev.slot(env, h)
            def step(x, e, g):
                v, e = better(ev.read(acc, e), x, e, g); e = dict(e)
                ev.write(acc, v, e); return L("next", e)
            t = ev.each(tl, env, gate, step)
            return loopval(ev, t, env, lambda lf: some(ev.read(acc, lf[2])))
        k = keyof(u) if keyof(u) is not None else gate.get(u)
        if k == 0: return NONE, env
        if k == 1: return yes(env, gate)
        v1, e1 = yes(dict(env), {**gate, u: 1})
        return case(u, [(0, NONE), (1, v1)]), ev.merge(u, [(0, env), (1, e1)])
    return go(u, env, gate)
@model("Iterator::max", "Iterator::min")
def imaxmin(ev, a, env, gate, info):
    if local_iter(info): return None
    w, env = consume(ev, wordof(ev, a[0], env, info), env, info); mx = info.short.endswith("max")
    # ties: max keeps the later, min the earlier
    return pick(ev, w, env, gate, lambda m, x, e, g: (on_cmp(ev.deref(m, e), ev.deref(x, e), x if mx else m, x if mx else m, m if mx else x), e))
@model("Iterator::max_by", "Iterator::min_by")
def imaxby(ev, a, env, gate, info):
    if local_iter(info): return None
    w = wordof(ev, a[0], env, info); mx = info.short.endswith("max_by")
    def better(m, x, e, g):
        v, e = ev.apply(a[1], [m, x], e, g); k, o = (x, m) if mx else (m, x)
        return case(discr(v), [(0, k), (1, k), (2, o)]), e
    return pick(ev, w, env, gate, better)
@model("Iterator::max_by_key", "Iterator::min_by_key")
def imaxbykey(ev, a, env, gate, info):
    if local_iter(info): return None
    w = wordof(ev, a[0], env, info); mx = info.short.endswith("max_by_key")
    lam = lam_items(ev, a[1], env, gate, lambda x, v: seq([tup([v, x])]))
    if lam is None: return None_unk(ev, "max_by_key", a, env)
    w, env = consume(ev, fmap_(w, lam), env, info)
    kt = info.c["targs"][1]
    def better(m, x, e, g):
        k, o = (x, m) if mx else (m, x)
        return tcmp(ev, info.prog, kt, proj(0, 0, m), proj(0, 0, x), e, (k, lambda: k, o)), e
    v, env = pick(ev, w, env, gate, better)
    return case(discr(v), [(0, NONE), (1, some(proj(0, 1, proj(1, 0, v))))]), env
@model("Iterator::nth")
def inth(ev, a, env, gate, info):
    if "inst" in info.c or local_iter(info): return None
    r = ev.deref(a[0], env)
    if r.op == "con" and r.a[0] in ("$view", "std::ops::Range"): return None
    w = as_word(ev, r, env)
    if has_eff(w): ev.flags.add("next-eff")
    n = length(w)
    ev.write(a[0], on_cmp(a[1], n, seg(w, add(a[1], lit(1)), n), NIL, NIL), env)
    return on_cmp(a[1], n, some(idx(w, a[1])), NONE, NONE), env
@model("DoubleEndedIterator::rfind")
def irfind(ev, a, env, gate, info):
    if local_iter(info): return None
    r = ev.deref(a[0], env)
    if r.op == "con" and r.a[0] in ("$view",): return None
    return MODELS["Iterator::find"](ev, [rev(wordof(ev, a[0], env, info)), a[1]], env, gate, info)
@model("slice::rotate_left", "slice::rotate_right")
def rotate(ev, a, env, gate, info):
    w = ev.deref(a[0], env); n = length(w); env = dict(env)
    env["panic"] = bor(env["panic"], on_cmp(a[1], n, FALSE, FALSE, TRUE))
    k = a[1] if info.short.endswith("left") else add(n, a[1], -1)
    ev.write(a[0], cat(seg(w, k, n), seg(w, lit(0), k)), env); return UNIT, env
@model("slice::fill")
def sfill(ev, a, env, gate, info):
    w = ev.deref(a[0], env); x = fresh()
    ev.write(a[0], fmap_(w, close(seq([a[1]]), [x])), env); return UNIT, env
@model("Vec::resize", "SmallVec::resize")
def vresize(ev, a, env, gate, info):
    w = ev.deref(a[0], env); n = length(w); x = fresh()
    ev.write(a[0], on_cmp(a[1], n, seg(w, lit(0), a[1]), w, cat(w, fmap_(range_(n, a[1]), close(seq([a[2]]), [x])))), env); return UNIT, env
@model("Vec::extend_from_within")
def vextwithin(ev, a, env, gate, info):
    t = info.prog.types[info.c["targs"][-1]]["s"]
    if "RangeFull" not in t: return None
    w = ev.deref(a[0], env); ev.write(a[0], cat(w, w), env); return UNIT, env
@model("iter::zip")
def iterzip(ev, a, env, gate, info):
    ts = info.c["targs"]
    def one(i):
        v = ev.deref(a[i], env); t = info.prog.types[ts[i]]
        while t["k"] == "ref": t = info.prog.types[t["t"]]
        if t["s"].startswith(("std::vec::Vec<", "smallvec::SmallVec<", "[", "std::slice::Iter<", "std::vec::IntoIter<", "std::option::Option<")): return wordof(ev, a[i], env, info, i)
    x, y = one(0), one(1)
    if x is None or y is None: return None
    return zip_(x, y), env
@model("Iterator::peekable")
def ipeekable(ev, a, env, gate, info):
    if local_iter(info): return None
    w = wordof(ev, a[0], env, info)
    if has_eff(w): return None
    return w, env
@model("Peekable::peek")
def ipeek(ev, a, env, gate, info):
    r = ev.deref(a[0], env)
    if r.op == "con": return None
    w = as_word(ev, r, env); u = uncons(w)
    if has_eff(w): return None
    return case(u, [(0, NONE), (1, some(hdtl(w)[0]))]), env
@model("Cow::into_owned")
def cowown(ev, a, env, gate, info):
    def go(v):
        if v.op == "case": return case(v.a[0], [(k, go(x)) for k, x in v.a[1]])
        return v.a[3] if v.op == "con" and v.a[0].endswith("Cow") else v
    return go(ev.deref(a[0], env)), env

# ---- what derive(Debug) expands to (plain, not pretty, text)
def dbgval(ev, x, env): return mk("fn", "debug", True, ev.deref(x, env))
@model("Formatter::debug_tuple_field1_finish", "Formatter::debug_tuple_field2_finish", "Formatter::debug_tuple_field3_finish")
def dbg_tuple(ev, a, env, gate, info):
    n = ev.deref(a[1], env); ps = [cat(*([lit(", ")] if i else []), dbgval(ev, x, env)) for i, x in enumerate(a[2:])]
    ev.write(a[0], cat(ev.deref(a[0], env), n, lit("("), *ps, lit(")")), env); return ok(UNIT), env
def dbg_text(ev, name, fields, struct):
    """fields: (name or None, text)"""
    if not fields: return name
    ps = []
    for i, (n, t) in enumerate(fields): ps.append(cat(lit(", " if i else ""), *([n, lit(": ")] if n is not None else []), t))
    return cat(name, lit(" { " if struct else "("), *ps, lit(" }" if struct else ")"))
@model("Formatter::debug_struct_field1_finish", "Formatter::debug_struct_field2_finish", "Formatter::debug_struct_field3_finish", "Formatter::debug_struct_field4_finish")
def dbg_struct(ev, a, env, gate, info):
    n = ev.deref(a[1], env)
    if not litstr(n): return None
    ns = n.a[1].split(" ")
    if len(ns) == 1 and len(a) > 3:   # older toolchains pass the names one by one
        ns += [ev.deref(x, env).a[1] for x in a[2::2]]; vs = a[3::2]
    else: vs = a[2:]
    if len(ns) != len(vs) + 1: return None
    t = dbg_text(ev, lit(ns[0]), [(lit(k), dbgval(ev, v, env)) for k, v in zip(ns[1:], vs)], True)
    ev.write(a[0], cat(ev.deref(a[0], env), t), env); return ok(UNIT), env
@model("Formatter::debug_struct", "Formatter::debug_tuple", "Formatter::debug_list")
def dbg_builder(ev, a, env, gate, info):
    return con("dbgb:" + info.short.split("_")[-1], 0, 1, [a[0], ev.deref(a[1], env) if len(a) > 1 else NIL, NIL]), env
@model("DebugStruct::field", "DebugTuple::field", "DebugList::entry", "DebugList::entries")
def dbg_field(ev, a, env, gate, info):
    b = ev.deref(a[0], env)
    if b.op != "con" or not b.a[0].startswith("dbgb:"): return None
    if info.short.endswith("entries"):
        w = wordof(ev, a[1], env, info); x = fresh(); more = fmap_(w, close(seq([mk("fn", "debug", True, x)]), [x]))
    else: more = seq([tup([ev.deref(a[1], env), dbgval(ev, a[2], env)]) if len(a) > 2 else dbgval(ev, a[1], env)])
    ev.write(a[0], con(b.a[0], 0, 1, [b.a[3], b.a[4], cat(b.a[5], more)]), env)
    return a[0], env
@model("DebugStruct::finish", "DebugTuple::finish", "DebugList::finish")
def dbg_finish(ev, a, env, gate, info):
    b = ev.deref(a[0], env)
    if b.op != "con" or not b.a[0].startswith("dbgb:"): return None
    k = b.a[0][5:]
    if k == "list": t = mk("fn", "debuglist", True, b.a[5])
    else:
        fs = parts_of(b.a[5])
        if not all(p.op == "unit" for p in fs): return None
        t = dbg_text(ev, b.a[4], [(p.a[0].a[3], p.a[0].a[4]) if k == "struct" else (None, p.a[0]) for p in fs], k == "struct")
    ev.write(b.a[3], cat(ev.deref(b.a[3], env), t), env); return ok(UNIT), env

# ---- further sequence operations
def units(w): return all(p.op == "unit" for p in parts_of(w))
def perword(w, f):
    """f at each alternative of a sequence of known shape; None where the shape is not known"""
    if w.op == "case":
        r = [(k, perword(x, f)) for k, x in w.a[1]]
        return None if any(x is None for _, x in r) else case(w.a[0], r)
    return f([p.a[0] for p in parts_of(w)]) if w.op in ("word",) and units(w) or w is NIL else None
@model("slice::chunks_exact")
def chunks_exact(ev, a, env, gate, info):
    w = ev.deref(a[0], env); k = a[1]; env = dict(env)
    env["panic"] = bor(env["panic"], on_cmp(k, lit(0), TRUE, TRUE, FALSE))
    def go(w, k):
        if w.op == "case": return case(w.a[0], [(i, go(x, k)) for i, x in w.a[1]])
        if k.op == "case": return case(k.a[0], [(i, go(w, x)) for i, x in k.a[1]])
        if litval(k) == 0: return NIL
        n = length(w); return chunks_(seg(w, lit(0), add(n, binary_("Rem", n, k), -1)), k)
    return go(w, k), env
def binary_(o, x, y):
    import eval as E
    return E.binary(o, x, y)
@model("slice::rchunks")
def rchunks(ev, a, env, gate, info):
    env = dict(env); env["panic"] = bor(env["panic"], on_cmp(a[1], lit(0), TRUE, TRUE, FALSE))
    return map1(chunks_(rev(ev.deref(a[0], env)), a[1]), rev), env
@model("slice::windows")
def windows(ev, a, env, gate, info):
    k = litval(a[1])
    if not isinstance(k, int) or k < 1: return None
    w = ev.deref(a[0], env)
    if k == 1: return map1(w, lambda x: seq([x])), env
    r = perword(w, lambda xs: seq([seq(xs[i:i + k]) for i in range(len(xs) - k + 1)]))
    if r is None and k == 2: r = map1(zip_(w, case(uncons(w), [(0, NIL), (1, hdtl(w)[1])])), lambda p: seq([proj(0, 0, p), proj(0, 1, p)]))
    return None if r is None else (r, env)
@model("Iterator::step_by")
def istepby(ev, a, env, gate, info):
    if local_iter(info): return None
    k = litval(a[1]); w = wordof(ev, a[0], env, info)
    if not isinstance(k, int) or k < 1: return None
    if k == 1: return w, env
    r = perword(w, lambda xs: seq(xs[::k]))
    return (r if r is not None else map1(chunks_(w, lit(k)), lambda c: hdtl(c)[0])), env
@model("Vec::dedup", "SmallVec::dedup", "Vec::dedup_by_key", "SmallVec::dedup_by_key", "Vec::dedup_by", "SmallVec::dedup_by")
def dedup(ev, a, env, gate, info):
    w = ev.deref(a[0], env); kind = info.short.split("::")[-1]
    et = None
    def same_(x, y):
        """x (later) equals y (kept)"""
        e0 = dict(env); e0["trace"] = NIL; e0["panic"] = FALSE
        if kind == "dedup": return None
        if kind == "dedup_by": v, e = ev.apply(a[1], [ev.slot(e0, x), ev.slot(e0, y)], e0, gate)
        else:
            p, e = ev.apply(a[1], [ev.slot(e0, x)], e0, gate); q, e = ev.apply(a[1], [ev.slot(e, y)], dict(e), gate)
            v = case(eqt(p, q), [(0, FALSE), (1, TRUE)])
        if e["trace"] is not NIL: ev.flags.add("dedup-calls"); return None
        return v
    if kind == "dedup":
        x, y = fresh(), fresh()
        targ = info.prog.types[info.c["targs"][0]]
        if info.short.startswith("Vec"): t = info.c["targs"][0]
        else: t = info.prog.types[info.c["targs"][0]].get("elem") or info.prog.types[info.c["targs"][0]].get("t")
        if t is None: return None
        same_ = lambda x, y: teq(ev, info.prog, t, x, y, env)
    bad = []
    def go(xs):
        def build(acc, rest):
            if not rest: return seq(acc)
            if not acc: return build([rest[0]], rest[1:])
            s = same_(rest[0], acc[-1])
            if s is None: bad.append(1); return NIL
            return case(s, [(0, build(acc + [rest[0]], rest[1:])), (1, build(acc, rest[1:]))]) if s.op != "case" or kind != "" else None
        return build([], xs) if len(xs) <= 5 else None
    r = perword(w, go)
    if r is None or bad: return None
    env = dict(env); ev.write(a[0], r, env); return UNIT, env
def each_to(ev, w, env, gate, init, f):
    """init followed by what f(x, env, gate) gives for each element, in order"""
    env = dict(env); acc = ev.slot(env, init)
    def step(x, e, g):
        v, e = f(x, dict(e), g); e = dict(e)
        ev.write(acc, cat(ev.read(acc, e), seq([v])), e); return L("next", e)
    t = ev.each(w, env, gate, step)
    return loopval(ev, t, env, lambda lf: ev.read(acc, lf[2]))
@model("Vec::resize_with", "SmallVec::resize_with")
def vresizewith(ev, a, env, gate, info):
    w = ev.deref(a[0], env); n = length(w); env = dict(env)
    f = a[2] if a[2].op == "mref" else ev.slot(env, a[2])
    more = on_cmp(a[1], n, range_(lit(0), lit(0)), range_(lit(0), lit(0)), range_(n, a[1]))
    r, e = each_to(ev, more, env, gate, on_cmp(a[1], n, seg(w, lit(0), a[1]), w, w), lambda x, e, g: ev.apply(f, [], e, g))
    e = dict(e); ev.write(a[0], r, e); return UNIT, e
@model("slice::fill_with")
def sfillwith(ev, a, env, gate, info):
    w = ev.deref(a[0], env); env = dict(env); f = a[1] if a[1].op == "mref" else ev.slot(env, a[1])
    r, e = each_to(ev, w, env, gate, NIL, lambda x, e, g: ev.apply(f, [], e, g))
    e = dict(e); ev.write(a[0], r, e); return UNIT, e
@model("array::map")
def arraymap(ev, a, env, gate, info):
    env = dict(env); f = a[1] if a[1].op == "mref" else ev.slot(env, a[1])
    return each_to(ev, ev.deref(a[0], env), env, gate, NIL, lambda x, e, g: ev.apply(f, [x], e, g))
@model("Iterator::rposition")
def irposition(ev, a, env, gate, info):
    if local_iter(info): return None
    return MODELS["Iterator::find_map_pos"](ev, [rev(enum_(wordof(ev, a[0], env, info))), a[1]], env, gate, info)
@model("slice::is_sorted_by")
def issortedby(ev, a, env, gate, info):
    w = ev.deref(a[0], env); ps = zip_(w, case(uncons(w), [(0, NIL), (1, hdtl(w)[1])])); env = dict(env)
    f = a[1] if a[1].op == "mref" else ev.slot(env, a[1])
    def step(x, e, g):
        v, e = ev.apply(f, [proj(0, 0, x), proj(0, 1, x)], e, g)
        def go(v):
            if v.op == "case": return P(v.a[0], [(k, go(y)) for k, y in v.a[1]])
            kk = keyof(v)
            if kk == 1: return L("next", dict(e))
            if kk == 0: return L("found", dict(e))
            return P(v, [(1, L("next", dict(e))), (0, L("found", dict(e)))])
        return go(v)
    t = ev.each(ps, env, gate, step)
    return ev.tterm(t, lambda lf: BOT if lf[1] == "PANIC" else (TRUE if lf[1] == "done" else FALSE)), ev.merge_tree(t)
@model("slice::clone_from_slice", "slice::copy_from_slice")
def clonefromslice(ev, a, env, gate, info):
    w, u = ev.deref(a[0], env), ev.deref(a[1], env); env = dict(env)
    env["panic"] = bor(env["panic"], on_cmp(length(w), length(u), TRUE, FALSE, TRUE))
    ev.write(a[0], u, env); return UNIT, env
@model("slice::split_at_checked")
def splitatchk(ev, a, env, gate, info):
    w = ev.deref(a[0], env); v = some(tup([seg(w, lit(0), a[1]), seg(w, a[1], length(w))]))
    return on_cmp(a[1], length(w), v, v, NONE), env
@model("slice::split_at_mut")
def splitatmut(ev, a, env, gate, info):
    w = ev.deref(a[0], env); env = dict(env)
    if a[0].op != "mref": return None
    env["panic"] = bor(env["panic"], on_cmp(a[1], length(w), FALSE, FALSE, TRUE))
    return tup([ev.ext(a[0], ("seg", lit(0), a[1])), ev.ext(a[0], ("seg", a[1], length(w)))]), env
@model("slice::split_first_mut", "slice::split_last_mut")
def splitfirstmut(ev, a, env, gate, info):
    if a[0].op != "mref": return None
    w = ev.deref(a[0], env); n = length(w)
    if "first" in info.short: v = tup([ev.ext(a[0], ("hd",)), ev.ext(a[0], ("seg", lit(1), n))])
    else: v = tup([ev.ext(a[0], ("last",)), ev.ext(a[0], ("seg", lit(0), add(n, lit(1), -1)))])
    return case(uncons(w), [(0, NONE), (1, some(v))]), env
@model("Vec::splice")
def vsplice(ev, a, env, gate, info):
    w = ev.deref(a[0], env); i = ev.deref(a[1], env)
    r = (lit(0), length(w)) if i is ZST or (i.op == "con" and i.a[0].endswith("RangeFull")) else rng(i, w) if israng(i) else None
    if r is None: return None
    m, env = consume(ev, wordof(ev, a[2], env, info, len(info.c["targs"]) - 1), env, info); env = dict(env)
    env["panic"] = bor(env["panic"], on_cmp(r[1], length(w), FALSE, FALSE, TRUE))
    if litval(r[0]) != 0: env["panic"] = bor(env["panic"], on_cmp(r[0], r[1], FALSE, FALSE, TRUE))
    ev.write(a[0], cat(seg(w, lit(0), r[0]), m, seg(w, r[1], length(w))), env)
    return seg(w, r[0], r[1]), env
@model("usize::checked_add", "num::checked_add", "usize::saturating_add", "num::saturating_add")
def checkedadd(ev, a, env, gate, info):
    d = add(ev.deref(a[0], env), ev.deref(a[1], env)); return (some(d) if "checked" in info.short else d), env
@model("usize::div_ceil", "num::div_ceil")
def divceil(ev, a, env, gate, info):
    if not litval(a[1]): return None
    return binary_("Div", add(a[0], lit(litval(a[1]) - 1)), a[1]), env
@model("usize::is_multiple_of", "num::is_multiple_of")
def multof(ev, a, env, gate, info):
    if not litval(a[1]): return None
    return on_cmp(binary_("Rem", a[0], a[1]), lit(0), FALSE, TRUE, FALSE), env
@model("Iterator::product")
def iproduct(ev, a, env, gate, info):
    w, env = consume(ev, wordof(ev, a[0], env, info), env, info)
    import eval as E
    def go(xs):
        r = lit(1)
        for x in xs: r = E.mul(r, x)
        return r
    r = perword(w, go)
    return None if r is None else (r, env)
@model("Result::iter", "Result::into_iter")
def resiter(ev, a, env, gate, info): return res_word(ev.deref(a[0], env)), env
@model("Arc::strong_count", "Rc::strong_count")
def strongcount(ev, a, env, gate, info):
    # how often a value is shared depends on the caller: any number from one up
    return add(lit(1), mk("fn", "shared", True, ev.deref(a[0], env))), env
