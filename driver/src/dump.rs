use rustc_ast::attr::AttributeExt;
use crate::json::J;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_middle::mir::*;
use rustc_middle::ty::{self, print::with_no_trimmed_paths, EarlyBinder, Instance, InstanceKind, ShimKind, Ty, TyCtxt, TypingEnv};
use rustc_index::IndexVec;
use std::collections::HashMap;

type Stash<'tcx> = HashMap<LocalDefId, (Body<'tcx>, IndexVec<Promoted, Body<'tcx>>)>;

pub fn path<'tcx>(tcx: TyCtxt<'tcx>, d: DefId) -> String { with_no_trimmed_paths!(tcx.def_path_str(d)) }
fn tys<'tcx>(t: Ty<'tcx>) -> String { with_no_trimmed_paths!(format!("{t}")) }

pub fn span<'tcx>(tcx: TyCtxt<'tcx>, s: rustc_span::Span) -> String {
    let s = s.source_callsite();
    let loc = tcx.sess.source_map().lookup_char_pos(s.lo());
    format!("{}:{}", loc.file.name.prefer_local_unconditionally(), loc.line)
}

struct Ctx<'a, 'tcx> {
    tcx: TyCtxt<'tcx>,
    env: TypingEnv<'tcx>,
    stash: &'a Stash<'tcx>,
    types: Vec<J>,
    tymap: HashMap<Ty<'tcx>, usize>,
    insts: Vec<(Instance<'tcx>, Option<Promoted>)>,
    instmap: HashMap<(Instance<'tcx>, Option<Promoted>), usize>,
    shallow: bool,
    cur: Option<IndexVec<Local, LocalDecl<'tcx>>>,
}

impl<'a, 'tcx> Ctx<'a, 'tcx> {
    fn new(tcx: TyCtxt<'tcx>, env: TypingEnv<'tcx>, stash: &'a Stash<'tcx>, shallow: bool) -> Self {
        Ctx { tcx, env, stash, types: vec![], tymap: HashMap::new(), insts: vec![], instmap: HashMap::new(), shallow, cur: None }
    }
    fn inst(&mut self, i: Instance<'tcx>, p: Option<Promoted>) -> usize {
        if let Some(&k) = self.instmap.get(&(i, p)) { return k; }
        let k = self.insts.len();
        self.insts.push((i, p));
        self.instmap.insert((i, p), k);
        k
    }
    fn norm(&self, t: Ty<'tcx>) -> Ty<'tcx> {
        let t = self.tcx.erase_and_anonymize_regions(t);
        self.tcx.try_normalize_erasing_regions(self.env, ty::Unnormalized::new_wip(t)).unwrap_or(t)
    }
    fn has_mir(&self, d: DefId) -> bool {
        if let Some(l) = d.as_local() { return self.stash.contains_key(&l); }
        if !self.tcx.is_mir_available(d) { return false; }
        let p = path(self.tcx, d);
        const ALLOW: &[&str] = &["std::option::", "std::result::", "core::option::", "core::result::", "std::convert::", "core::convert::",
            "std::ops::", "core::ops::", "std::cmp::", "core::cmp::", "<std::option::Option", "<std::result::Result", "std::bool::",
            "<impl bool>", "core::bool::", "std::default::", "<bool as", "<std::cmp::Ordering", "std::clone::impls", "std::tuple::"];
        let _ = &p;
        ALLOW.iter().any(|a| p.starts_with(a)) || p.contains("<impl std::ops::FromResidual") || p.starts_with("std::option") || p.contains("<impl bool>")
    }
    fn callee(&mut self, def: DefId, args: ty::GenericArgsRef<'tcx>) -> J {
        let tcx = self.tcx;
        let mut o = vec![("path", J::s(path(tcx, def)))];
        let targs: Vec<J> = args.types().map(|t| { let k = self.ty(t); J::u(k) }).collect();
        o.push(("targs", J::A(targs)));
        let cargs: Vec<J> = args.consts().map(|c| J::s(format!("{c}"))).collect();
        if !cargs.is_empty() { o.push(("cargs", J::A(cargs))); }
        match tcx.def_kind(def) {
            DefKind::Ctor(..) => {
                let parent = tcx.parent(def);
                let (adt, vidx) = match tcx.def_kind(parent) {
                    DefKind::Variant => { let a = tcx.parent(parent); (a, tcx.adt_def(a).variant_index_with_id(parent).as_usize()) }
                    _ => (parent, 0),
                };
                o.push(("ctor", J::A(vec![J::s(path(tcx, adt)), J::u(vidx)])));
                return J::O(o);
            }
            _ => {}
        }
        let sig = tcx.fn_sig(def).skip_binder();
        o.push(("unsafe", J::B(sig.safety().is_unsafe())));
        if let Some(tr) = tcx.trait_of_assoc(def) { o.push(("trait", J::s(path(tcx, tr)))); }
        let args = tcx.erase_and_anonymize_regions(args);
        // collect / sum / product: the implementation they hand the iterator to
        if !self.shallow {
            for (c, _) in tcx.clauses_of(def).instantiate_own(tcx, args) {
                let c = c.skip_norm_wip();
                let Some(tp) = c.as_trait_clause() else { continue };
                let tr = tp.skip_binder().trait_ref;
                let n = path(tcx, tr.def_id);
                if !matches!(n.as_str(), "std::iter::FromIterator" | "std::iter::Sum" | "std::iter::Product") { continue }
                let Some(m) = tcx.associated_items(tr.def_id).in_definition_order().find(|x| matches!(x.kind, ty::AssocKind::Fn { .. })) else { continue };
                let self_ty = args.type_at(0);
                let margs: Vec<ty::GenericArg<'tcx>> = tr.args.iter().chain(std::iter::once(self_ty.into())).collect();
                let margs = tcx.mk_args(&margs);
                let margs = tcx.try_normalize_erasing_regions(self.env, ty::Unnormalized::new_wip(margs)).unwrap_or(margs);
                if let Ok(Some(i)) = Instance::try_resolve(tcx, self.env, m.def_id, tcx.erase_and_anonymize_regions(margs)) {
                    if let InstanceKind::Item(d) = i.def { if d.is_local() && self.has_mir(d) { let k = self.inst(i, None); o.push(("via", J::u(k))); } }
                }
            }
        }
        // x.into(): the crate's own From implementation behind the blanket one
        if !self.shallow {
            if let Some(tr) = tcx.trait_of_assoc(def) {
                if path(tcx, tr) == "std::convert::Into" && args.types().count() == 2 {
                    if let Some(fr) = tcx.get_diagnostic_item(rustc_span::sym::From) {
                        if let Some(m) = tcx.associated_items(fr).in_definition_order().find(|x| matches!(x.kind, ty::AssocKind::Fn { .. })) {
                            let margs = tcx.mk_args(&[args.type_at(1).into(), args.type_at(0).into()]);
                            if let Ok(Some(i)) = Instance::try_resolve(tcx, self.env, m.def_id, margs) {
                                if let InstanceKind::Item(d) = i.def { if d.is_local() && self.has_mir(d) { let k = self.inst(i, None); o.push(("via", J::u(k))); } }
                            }
                        }
                    }
                }
            }
        }
        // formatting: the implementation that writes the value
        if !self.shallow && args.types().count() >= 1 {
            let n = path(tcx, def);
            let which = if n.ends_with("::new_display") || n.ends_with("ToString::to_string") { Some(rustc_span::sym::Display) }
                else if n.ends_with("::new_debug") { Some(rustc_span::sym::Debug) } else { None };
            if let Some(fr) = which.and_then(|w| tcx.get_diagnostic_item(w)) {
                if let Some(m) = tcx.associated_items(fr).in_definition_order().find(|x| matches!(x.kind, ty::AssocKind::Fn { .. })) {
                    let Some(mut st) = args.types().last() else { unreachable!() };
                    while let ty::Ref(_, t, _) = *st.kind() { st = t; }
                    let margs = tcx.mk_args(&[st.into()]);
                    if let Ok(Some(i)) = Instance::try_resolve(tcx, self.env, m.def_id, margs) {
                        if let InstanceKind::Item(d) = i.def { if d.is_local() && self.has_mir(d) { let k = self.inst(i, None); o.push(("fmtvia", J::u(k))); } }
                    }
                }
            }
        }
        match Instance::try_resolve(tcx, self.env, def, args) {
            Ok(Some(i)) => {
                let d = i.def_id();
                o.push(("rpath", J::s(path(tcx, d))));
                match i.def {
                    InstanceKind::Item(d) => {
                        o.push(("kind", J::s("item")));
                        if let Some(im) = tcx.impl_of_assoc(d) {
                            if let Some(t) = tcx.impl_opt_trait_ref(im) { let _ = t; o.push(("impl_self", { let k = self.ty(tcx.type_of(im).instantiate(tcx, tcx.mk_args(&i.args[..tcx.generics_of(im).count()])).skip_norm_wip()); J::u(k) })); }
                        }
                        if !self.shallow && self.has_mir(d) { let k = self.inst(i, None); o.push(("inst", J::u(k))); }
                        o.push(("local", J::B(d.is_local())));
                    }
                    InstanceKind::Shim(ShimKind::ClosureOnce { closure, .. }) => {
                        o.push(("kind", J::s("closure_once")));
                        let cargs = i.args.type_at(0);
                        if let ty::Closure(_, a) = cargs.kind() { let k = self.inst(Instance { def: InstanceKind::Item(closure), args: a }, None); o.push(("inst", J::u(k))); }
                    }
                    InstanceKind::Virtual(..) => o.push(("kind", J::s("virtual"))),
                    InstanceKind::Intrinsic(_) => o.push(("kind", J::s("intrinsic"))),
                    InstanceKind::Shim(s) => { let n = format!("{s:?}"); o.push(("kind", J::s(n.split(['(', '{', ' ']).next().unwrap_or("")))) }
                    _ => o.push(("kind", J::s("other"))),
                }
            }
            _ => o.push(("kind", J::s("unresolved"))),
        }
        J::O(o)
    }
    fn adt_info(&mut self, a: ty::AdtDef<'tcx>, args: ty::GenericArgsRef<'tcx>) -> Vec<(&'static str, J)> {
        let tcx = self.tcx;
        let mut vs = vec![];
        let local = a.did().is_local();
        for (vi, v) in a.variants().iter_enumerated() {
            let d = if a.is_enum() { a.discriminant_for_variant(tcx, vi).val as i128 } else { 0 };
            let fs: Vec<J> = v.fields.iter().map(|f| J::s(f.name.to_string())).collect();
            let mut o = vec![("name", J::s(v.name.to_string())), ("discr", J::I(d)), ("fields", J::A(fs))];
            if local || path(tcx, a.did()).starts_with("std::option") || path(tcx, a.did()).starts_with("std::result") || a.is_enum() {
                let ft: Vec<J> = v.fields.iter().map(|f| { let t = f.ty(tcx, args).skip_norm_wip(); let k = self.ty(t); J::u(k) }).collect();
                o.push(("ftys", J::A(ft)));
            }
            vs.push(J::O(o));
        }
        vec![("k", J::s("adt")), ("path", J::s(path(tcx, a.did()))), ("enum", J::B(a.is_enum())), ("local", J::B(local)), ("vs", J::A(vs))]
    }
    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        let t = self.norm(t);
        if let Some(&k) = self.tymap.get(&t) { return k; }
        let k = self.types.len();
        self.types.push(J::Null);
        self.tymap.insert(t, k);
        let tcx = self.tcx;
        let mut o: Vec<(&'static str, J)> = match *t.kind() {
            ty::Adt(a, args) => {
                let mut o = self.adt_info(a, args);
                let ta: Vec<J> = args.types().map(|x| { let k = self.ty(x); J::u(k) }).collect();
                o.push(("args", J::A(ta)));
                o
            }
            ty::Ref(_, i, m) => vec![("k", J::s("ref")), ("mut", J::B(m.is_mut())), ("t", { let k = self.ty(i); J::u(k) })],
            ty::RawPtr(i, m) => vec![("k", J::s("ptr")), ("mut", J::B(m.is_mut())), ("t", { let k = self.ty(i); J::u(k) })],
            ty::Tuple(ts) => vec![("k", J::s("tuple")), ("ts", J::A(ts.iter().map(|x| { let k = self.ty(x); J::u(k) }).collect()))],
            ty::Array(i, n) => vec![("k", J::s("array")), ("t", { let k = self.ty(i); J::u(k) }), ("n", J::s(format!("{n}")))],
            ty::Slice(i) => vec![("k", J::s("slice")), ("t", { let k = self.ty(i); J::u(k) })],
            ty::Closure(d, a) => {
                let i = Instance { def: InstanceKind::Item(d), args: a };
                let mut o = vec![("k", J::s("closure")), ("path", J::s(path(tcx, d))), ("ckind", J::s(format!("{:?}", a.as_closure().kind())))];
                if !self.shallow { let k = self.inst(i, None); o.push(("inst", J::u(k))); }
                o
            }
            ty::Coroutine(d, a) => {
                let mut o = vec![("k", J::s("coroutine")), ("path", J::s(path(tcx, d)))];
                if !self.shallow && self.has_mir(d) { let i = Instance { def: InstanceKind::Item(d), args: a }; let k = self.inst(i, None); o.push(("inst", J::u(k))); }
                o
            }
            ty::FnDef(d, a) => { let c = self.callee(d, a.no_bound_vars().unwrap()); vec![("k", J::s("fndef")), ("callee", c)] }
            ty::FnPtr(..) => vec![("k", J::s("fnptr"))],
            ty::Param(_) => vec![("k", J::s("param"))],
            ty::Dynamic(..) => vec![("k", J::s("dyn"))],
            ty::Bool => vec![("k", J::s("bool"))],
            ty::Char => vec![("k", J::s("char"))],
            ty::Str => vec![("k", J::s("str"))],
            ty::Never => vec![("k", J::s("never"))],
            ty::Int(_) | ty::Uint(_) => vec![("k", J::s("int"))],
            ty::Float(_) => vec![("k", J::s("float"))],
            ty::Alias(..) => vec![("k", J::s("alias"))],
            _ => vec![("k", J::s("other"))],
        };
        o.push(("s", J::s(tys(t))));
        self.types[k] = J::O(o);
        k
    }
    fn place(&mut self, p: &Place<'tcx>) -> J {
        let mut v = vec![];
        for (i, e) in p.projection.iter().enumerate() {
            v.push(J::A(match e {
                PlaceElem::Deref => vec![J::s("d")],
                PlaceElem::Field(f, _) => vec![J::s("f"), J::u(f.as_usize())],
                PlaceElem::Index(l) => vec![J::s("i"), J::u(l.as_usize())],
                PlaceElem::ConstantIndex { offset, from_end, .. } => vec![J::s("ci"), J::I(offset as i128), J::B(from_end)],
                PlaceElem::Subslice { from, to, from_end } => vec![J::s("sub"), J::I(from as i128), J::I(to as i128), J::B(from_end)],
                PlaceElem::Downcast(_, vi) => {
                    let base = Place { local: p.local, projection: self.tcx.mk_place_elems(&p.projection[..i]) };
                    let t = self.norm(base.ty(self.cur.as_ref().unwrap(), self.tcx).ty);
                    match t.kind() {
                        ty::Adt(a, _) if a.is_enum() => vec![J::s("dc"), J::u(vi.as_usize()), J::s(path(self.tcx, a.did())), J::u(a.variants().len()), J::u(a.variant(vi).fields.len())],
                        _ => vec![J::s("dc"), J::u(vi.as_usize())],
                    }
                }
                _ => vec![J::s("o")],
            }));
        }
        J::A(vec![J::u(p.local.as_usize()), J::A(v)])
    }
    fn constant(&mut self, c: &ConstOperand<'tcx>) -> J {
        let tcx = self.tcx;
        let ty = self.norm(c.const_.ty());
        let k = self.ty(ty);
        let mut o = vec![("ty", J::u(k))];
        if let ty::FnDef(..) = ty.kind() { return J::O(o); }
        let mut cc = c.const_;
        if let Const::Unevaluated(uv, _) = cc {
            let uargs = tcx.erase_and_anonymize_regions(uv.args);
            if let Some(p) = uv.promoted {
                if uv.def.is_local() && self.stash.contains_key(&uv.def.expect_local()) && !self.shallow {
                    let i = Instance { def: InstanceKind::Item(uv.def), args: uargs };
                    let k = self.inst(i, Some(p));
                    o.push(("promoted", J::u(k)));
                    return J::O(o);
                }
            }
            o.push(("named", J::s(path(tcx, uv.def))));
            if let Ok(v) = cc.eval(tcx, self.env, c.span) { cc = Const::Val(v, ty); }
            else {
                let ta: Vec<J> = uv.args.types().map(|x| { let k = self.ty(x); J::u(k) }).collect();
                o.push(("targs", J::A(ta)));
            }
        } else if let Const::Ty(_, ct) = cc {
            if let Ok(v) = cc.eval(tcx, self.env, c.span) { cc = Const::Val(v, ty); } else { o.push(("cparam", J::s(format!("{ct}")))); }
        }
        if let Const::Val(v, _) = cc {
            match v {
                ConstValue::ZeroSized => o.push(("zst", J::B(true))),
                ConstValue::Scalar(s) => {
                    if let Ok(si) = s.try_to_scalar_int() {
                        let size = si.size();
                        let val: i128 = if ty.is_signed() { size.sign_extend(si.to_bits(size)) } else { si.to_bits(size) as i128 };
                        o.push(("v", J::I(val)));
                    } else {
                        if let ty::Ref(_, t, _) = *ty.kind() { if let ty::Array(e, _) = *t.kind() { if matches!(e.kind(), ty::Uint(ty::UintTy::U8)) {
                            if let rustc_middle::mir::interpret::Scalar::Ptr(p, _) = s {
                                let (prov, off) = p.prov_and_relative_offset();
                                if let rustc_middle::mir::interpret::GlobalAlloc::Memory(m) = tcx.global_alloc(prov.alloc_id()) {
                                    let b = m.inner();
                                    let b = b.inspect_with_uninit_and_ptr_outside_interpreter(off.bytes_usize()..b.len());
                                    if b.len() <= 8192 { o.push(("bytes", J::A(b.iter().map(|x| J::u(*x as usize)).collect()))); }
                                }
                            }
                        } } }
                        o.push(("ptr", J::s(with_no_trimmed_paths!(format!("{}", Const::Val(v, ty)))))); }
                }
                ConstValue::Slice { .. } => {
                    if let Some(b) = v.try_get_slice_bytes_for_diagnostics(tcx) { o.push(("str", J::s(String::from_utf8_lossy(b).to_string()))); }
                }
                ConstValue::Indirect { .. } => o.push(("ind", J::s(with_no_trimmed_paths!(format!("{}", Const::Val(v, ty)))))),
            }
        }
        J::O(o)
    }
    fn op(&mut self, x: &Operand<'tcx>) -> J {
        match x {
            Operand::Copy(p) => { let p = self.place(p); J::O(vec![("p", p)]) }
            Operand::Move(p) => { let p = self.place(p); J::O(vec![("p", p), ("mv", J::B(true))]) }
            Operand::Constant(c) => { let c = self.constant(c); J::O(vec![("c", c)]) }
            _ => J::O(vec![("o", J::B(true))]),
        }
    }
    fn rv(&mut self, r: &Rvalue<'tcx>) -> J {
        let tcx = self.tcx;
        J::A(match r {
            Rvalue::Use(o, ..) => vec![J::s("use"), self.op(o)],
            Rvalue::Repeat(o, n) => vec![J::s("repeat"), self.op(o), J::s(format!("{n}"))],
            Rvalue::Ref(_, bk, p) => vec![J::s("ref"), J::s(match bk { BorrowKind::Shared => "s", BorrowKind::Fake(_) => "k", BorrowKind::Mut { .. } => "m" }), self.place(p)],
            Rvalue::RawPtr(k, p) => vec![J::s("rawptr"), J::s(format!("{k:?}")), self.place(p)],
            Rvalue::Cast(k, o, t) => { let n = format!("{k:?}"); let k = self.ty(*t); vec![J::s("cast"), J::s(n), self.op(o), J::u(k)] }
            Rvalue::BinaryOp(b, ops) => { let u = self.cur.as_ref().is_some_and(|c| matches!(ops.0.ty(c, tcx).kind(), ty::Uint(_))); vec![J::s("bin"), J::s(format!("{b:?}")), self.op(&ops.0), self.op(&ops.1), J::B(u)] }
            Rvalue::UnaryOp(b, o) => vec![J::s("un"), J::s(format!("{b:?}")), self.op(o)],
            Rvalue::Discriminant(p) => { let t = p.ty(self.cur.as_ref().unwrap(), tcx).ty; let k = self.ty(t); vec![J::s("discr"), self.place(p), J::u(k)] }
            Rvalue::CopyForDeref(p) => vec![J::s("use"), J::O(vec![("p", self.place(p))])],
            Rvalue::Reborrow(_, m, p) => vec![J::s("ref"), J::s(if m.is_mut() { "m" } else { "s" }), self.place(p)],
            Rvalue::Aggregate(k, ops) => {
                let mut v = vec![J::s("agg")];
                v.push(match **k {
                    AggregateKind::Array(_) => J::A(vec![J::s("array")]),
                    AggregateKind::Tuple => J::A(vec![J::s("tuple")]),
                    AggregateKind::Adt(d, vi, args, _, fi) => {
                        let t = Ty::new_adt(tcx, tcx.adt_def(d), args);
                        let k = self.ty(t);
                        J::A(vec![J::s("adt"), J::s(path(tcx, d)), J::u(vi.as_usize()), J::u(k), fi.map(|f| J::u(f.as_usize())).unwrap_or(J::Null)])
                    }
                    AggregateKind::Closure(d, a) => { let k = self.ty(Ty::new_closure(tcx, d, a)); J::A(vec![J::s("closure"), J::u(k)]) }
                    AggregateKind::Coroutine(d, a) => { let k = self.ty(Ty::new_coroutine(tcx, d, a)); J::A(vec![J::s("coroutine"), J::u(k)]) }
                    _ => J::A(vec![J::s("other")]),
                });
                let os: Vec<J> = ops.iter().map(|o| self.op(o)).collect();
                v.push(J::A(os));
                v
            }
            _ => vec![J::s("other"), J::s(with_no_trimmed_paths!(format!("{r:?}")))],
        })
    }
    fn body(&mut self, b: &Body<'tcx>) -> Vec<(&'static str, J)> {
        let tcx = self.tcx;
        self.cur = Some(b.local_decls.clone());
        let locals: Vec<J> = b.local_decls.iter().map(|l| { let k = self.ty(l.ty); J::u(k) }).collect();
        let mut names = vec![];
        for v in &b.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value { if p.projection.is_empty() { names.push(J::A(vec![J::u(p.local.as_usize()), J::s(v.name.to_string())])); } }
        }
        let mut blocks = vec![];
        for bb in b.basic_blocks.iter() {
            if bb.is_cleanup { blocks.push(J::Null); continue; }
            let mut st = vec![];
            for s in &bb.statements {
                match &s.kind {
                    StatementKind::Assign(a) => { let p = self.place(&a.0); let r = self.rv(&a.1); st.push(J::A(vec![J::s("a"), p, r])); }
                    StatementKind::SetDiscriminant { place, variant_index } => { let p = self.place(place); st.push(J::A(vec![J::s("sd"), p, J::u(variant_index.as_usize())])); }
                    _ => {}
                }
            }
            let t = bb.terminator();
            let g = |x: BasicBlock| J::u(x.as_usize());
            let tj = match &t.kind {
                TerminatorKind::Goto { target, .. } => vec![J::s("goto"), g(*target)],
                TerminatorKind::SwitchInt { discr, targets } => {
                    let ts: Vec<J> = targets.iter().map(|(v, b)| J::A(vec![J::I(v as i128), g(b)])).collect();
                    let dt = discr.ty(b, tcx);
                    let dk = self.ty(dt);
                    vec![J::s("switch"), self.op(discr), J::A(ts), g(targets.otherwise()), J::u(dk)]
                }
                TerminatorKind::Return => vec![J::s("ret")],
                TerminatorKind::Unreachable => vec![J::s("unreachable")],
                TerminatorKind::Drop { target, place, .. } => vec![J::s("drop"), g(*target), self.place(place)],
                TerminatorKind::FalseEdge { real_target, .. } => vec![J::s("goto"), g(*real_target)],
                TerminatorKind::FalseUnwind { real_target, .. } => vec![J::s("goto"), g(*real_target)],
                TerminatorKind::Assert { target, cond, expected, msg, .. } => { let m = format!("{msg:?}"); vec![J::s("assert"), g(*target), self.op(cond), J::B(*expected), J::s(m.split(['(', '{', ' ']).next().unwrap_or("").to_string())] }
                TerminatorKind::Yield { resume, resume_arg, value, .. } => vec![J::s("yield"), g(*resume), self.place(resume_arg), self.op(value)],
                TerminatorKind::Call { func, args, destination, target, fn_span, .. } => {
                    let fty = self.norm(func.ty(b, tcx));
                    let f = match *fty.kind() {
                        ty::FnDef(d, a) => self.callee(d, a.no_bound_vars().unwrap()),
                        _ => J::O(vec![("dynop", self.op(func))]),
                    };
                    let xs: Vec<J> = args.iter().map(|a| self.op(&a.node)).collect();
                    vec![J::s("call"), f, J::A(xs), self.place(destination), target.map(g).unwrap_or(J::Null), J::s(span(tcx, *fn_span))]
                }
                TerminatorKind::TailCall { .. } => vec![J::s("other")],
                TerminatorKind::UnwindResume => vec![J::s("resume")],
                _ => vec![J::s("other")],
            };
            blocks.push(J::O(vec![("s", J::A(st)), ("t", J::A(tj)), ("sp", J::s(span(tcx, t.source_info.span)))]));
        }
        vec![("nargs", J::u(b.arg_count)), ("locals", J::A(locals)), ("names", J::A(names)), ("blocks", J::A(blocks)), ("span", J::s(span(tcx, b.span))),
             ("spread", b.spread_arg.map(|l| J::u(l.as_usize())).unwrap_or(J::Null))]
    }
    fn body_of(&self, i: Instance<'tcx>, p: Option<Promoted>) -> Option<Body<'tcx>> {
        let d = i.def_id();
        let tcx = self.tcx;
        let raw = if let Some(l) = d.as_local() {
            let s = self.stash.get(&l)?;
            match p { Some(p) => s.1[p].clone(), None => s.0.clone() }
        } else { tcx.optimized_mir(d).clone() };
        i.try_instantiate_mir_and_normalize_erasing_regions(tcx, self.env, EarlyBinder::bind(tcx, raw)).ok()
    }
    fn run(&mut self) -> J {
        let mut out = vec![];
        let mut k = 0;
        while k < self.insts.len() {
            let (i, p) = self.insts[k];
            let d = i.def_id();
            let name = with_no_trimmed_paths!(format!("{i}"));
            let mut o = vec![("name", J::s(name)), ("path", J::s(path(self.tcx, d))), ("local", J::B(d.is_local()))];
            if d.is_local() {
                if let Some(im) = self.tcx.trait_impl_of_assoc(d) { o.push(("hand", J::B(!self.tcx.is_automatically_derived(im)))); }
            }
            match self.body_of(i, p) {
                Some(b) => { let bo = self.body(&b); o.extend(bo); o.push(("ok", J::B(true))); }
                None => o.push(("ok", J::B(false))),
            }
            if k > 3000 { break; }
            out.push(J::O(o));
            k += 1;
        }
        let types = std::mem::take(&mut self.types);
        J::O(vec![("bodies", J::A(out)), ("types", J::A(types))])
    }
}

pub fn dump<'tcx>(tcx: TyCtxt<'tcx>, out: &str) {
    let mut stash: Stash<'tcx> = HashMap::new();
    for d in tcx.hir_body_owners() {
        match tcx.def_kind(d) {
            DefKind::Fn | DefKind::AssocFn | DefKind::Closure | DefKind::SyntheticCoroutineBody => {}
            _ => continue,
        }
        if tcx.is_typeck_child(d.to_def_id()) && tcx.is_coroutine(d.to_def_id()) { /* coroutine bodies are owners too */ }
        let (b, p) = tcx.mir_promoted(d);
        stash.insert(d, (b.borrow().clone(), p.borrow().clone()));
    }
    std::fs::create_dir_all(out).unwrap();
    let mut index = vec![];
    // the public functions of the crate as roots of their own
    let allfns = std::env::var("VERIF_ROOTS").is_ok();
    let ev = tcx.effective_visibilities(());
    let mut names: Vec<LocalDefId> = stash.keys().copied().collect();
    names.sort_by_key(|d| d.local_def_index);
    let mut n = 0;
    for &d in &names {
        let did = d.to_def_id();
        let p = path(tcx, did);
        let law = matches!(tcx.def_kind(d), DefKind::Fn) && p.starts_with("verif_spec::") && matches!(p.rsplit("::").next(), Some("l" | "r" | "vl" | "vr"));
        let api = allfns && matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) && !p.contains("verif_spec") && ev.is_reachable(d);
        if law || api {
            let env = TypingEnv::post_analysis(tcx, did);
            let args = tcx.erase_and_anonymize_regions(ty::GenericArgs::identity_for_item(tcx, did));
            let mut c = Ctx::new(tcx, env, &stash, false);
            c.inst(Instance { def: InstanceKind::Item(did), args }, None);
            let j = c.run();
            let f = format!("r{n}.json");
            n += 1;
            let mut s = String::new();
            j.write(&mut s);
            std::fs::write(format!("{out}/{f}"), s).unwrap();
            let mut doc = false;
            if api { for a in tcx.hir_attrs(tcx.local_def_id_to_hir_id(d)) { if let Some(s) = a.doc_str() { doc |= s.as_str().to_lowercase().contains("panic"); } } }
            index.push(J::O(vec![("path", J::s(p)), ("api", J::B(api)), ("doc_panics", J::B(doc)), ("derived", J::B(api && tcx.trait_impl_of_assoc(did).is_some_and(|im| tcx.is_automatically_derived(im)))), ("file", J::s(f)), ("span", J::s(span(tcx, tcx.def_span(did))))]));
        }
    }
    let mut s = String::new();
    J::A(index).write(&mut s);
    std::fs::write(format!("{out}/index.json"), s).unwrap();
    if std::env::var("VERIF_FACTS").is_err() { return; }
    crate::facts::facts(tcx, out, &names, |d| {
        let env = TypingEnv::post_analysis(tcx, d.to_def_id());
        let mut c = Ctx::new(tcx, env, &stash, true);
        let args = tcx.erase_and_anonymize_regions(ty::GenericArgs::identity_for_item(tcx, d.to_def_id()));
        c.inst(Instance { def: InstanceKind::Item(d.to_def_id()), args }, None);
        c.run()
    });
}
