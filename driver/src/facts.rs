//! Facts about the analysed crate that the rules (engine/rules.py) decide on.
use crate::dump::{path, span};
use crate::json::J;
use rustc_ast::attr::AttributeExt;
use rustc_hir as hir;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_hir::intravisit::{self, Visitor};
use rustc_middle::hir::nested_filter;
use rustc_middle::ty::{self, print::with_no_trimmed_paths, Ty, TyCtxt};

struct Unsafe<'tcx> { tcx: TyCtxt<'tcx>, out: Vec<J> }
impl<'tcx> Visitor<'tcx> for Unsafe<'tcx> {
    type NestedFilter = nested_filter::All;
    fn maybe_tcx(&mut self) -> TyCtxt<'tcx> { self.tcx }
    fn visit_block(&mut self, b: &'tcx hir::Block<'tcx>) {
        if let hir::BlockCheckMode::UnsafeBlock(hir::UnsafeSource::UserProvided) = b.rules {
            let owner = self.tcx.hir_enclosing_body_owner(b.hir_id).to_def_id();
            let e = b.span.ctxt().outer_expn_data();
            let (mac, ext) = if b.span.from_expansion() {
                (e.macro_def_id.map(|d| path(self.tcx, d)).unwrap_or_else(|| "?".into()), e.macro_def_id.map(|d| !d.is_local()).unwrap_or(false))
            } else { (String::new(), false) };
            self.out.push(J::O(vec![("fn", J::s(path(self.tcx, owner))), ("span", J::s(span(self.tcx, b.span))), ("macro", J::s(mac)), ("external", J::B(ext))]));
        }
        intravisit::walk_block(self, b);
    }
}
fn tys<'tcx>(t: Ty<'tcx>) -> String { with_no_trimmed_paths!(format!("{t}")) }

/// every nominal type reachable by ownership or reference from `t` (through fields of the crate's own types and through type arguments)
fn reach<'tcx>(tcx: TyCtxt<'tcx>, t: Ty<'tcx>, seen: &mut Vec<Ty<'tcx>>, out: &mut Vec<(String, Vec<String>)>, trail: &mut Vec<String>) {
    if seen.contains(&t) { return; }
    seen.push(t);
    match *t.kind() {
        ty::Adt(def, args) => {
            out.push((path(tcx, def.did()), trail.clone()));
            if def.did().is_local() {
                for v in def.variants() { for f in &v.fields {
                    trail.push(format!("{}.{}", path(tcx, def.did()), f.name));
                    let ft = f.ty(tcx, args).skip_norm_wip();
                    reach(tcx, ft, seen, out, trail);
                    trail.pop();
                } }
            }
            for a in args.types() { trail.push(format!("argument of {}", path(tcx, def.did()))); reach(tcx, a, seen, out, trail); trail.pop(); }
        }
        ty::RawPtr(a, _) => { out.push(("*raw".into(), trail.clone())); reach(tcx, a, seen, out, trail) }
        ty::Ref(_, a, m) => { if m.is_mut() { out.push(("&mut".into(), trail.clone())); } reach(tcx, a, seen, out, trail) }
        ty::Array(a, _) | ty::Slice(a) => reach(tcx, a, seen, out, trail),
        ty::Tuple(ts) => for a in ts.iter() { reach(tcx, a, seen, out, trail) },
        ty::Dynamic(..) => out.push(("dyn".into(), trail.clone())),
        ty::FnPtr(..) => out.push(("fnptr".into(), trail.clone())),
        _ => {}
    }
}

pub fn facts<'tcx>(tcx: TyCtxt<'tcx>, out: &str, names: &[LocalDefId], body: impl Fn(LocalDefId) -> J) {
    let spec = |d: DefId| path(tcx, d).contains("verif_spec");
    let ev = tcx.effective_visibilities(());
    let mut fns = vec![];
    for &d in names {
        let did = d.to_def_id();
        if spec(did) { continue }
        let kind = tcx.def_kind(did);
        let mut o = vec![("path", J::s(path(tcx, did))), ("span", J::s(span(tcx, tcx.def_span(did)))), ("kind", J::s(format!("{kind:?}")))];
        if matches!(kind, DefKind::Fn | DefKind::AssocFn) {
            let sig = tcx.fn_sig(did).skip_binder();
            o.push(("unsafe", J::B(sig.safety().is_unsafe())));
            o.push(("public", J::B(ev.is_reachable(d))));
            o.push(("sig", J::s(with_no_trimmed_paths!(format!("{}", sig.skip_binder())))));
            if let Some(im) = tcx.impl_of_assoc(did) {
                o.push(("self", J::s(tys(tcx.type_of(im).skip_binder()))));
                if let Some(tr) = tcx.impl_opt_trait_ref(im) { o.push(("trait", J::s(path(tcx, tr.skip_binder().def_id)))); }
            }
            if let Some(tr) = tcx.trait_of_assoc(did) { o.push(("in_trait", J::s(path(tcx, tr)))); }
            let mut doc = String::new();
            for a in tcx.hir_attrs(tcx.local_def_id_to_hir_id(d)) { if let Some(s) = a.doc_str() { doc.push_str(s.as_str()); doc.push('\n'); } }
            o.push(("doc_panics", J::B(doc.to_lowercase().contains("panic"))));
            if let Some(p) = tcx.opt_parent(did) { if let Some(l) = p.as_local() { o.push(("parent", J::s(path(tcx, l.to_def_id())))); } }
        }
        o.push(("body", body(d)));
        fns.push(J::O(o));
    }
    let mut adts = vec![]; let mut impls = vec![]; let mut other = vec![];
    for id in tcx.hir_crate_items(()).definitions() {
        let did = id.to_def_id();
        if spec(did) { continue }
        match tcx.def_kind(did) {
            DefKind::Struct | DefKind::Enum | DefKind::Union => {
                let def = tcx.adt_def(did);
                let args = ty::GenericArgs::identity_for_item(tcx, did);
                let t = Ty::new_adt(tcx, def, args);
                let mut r = vec![];
                reach(tcx, t, &mut vec![], &mut r, &mut vec![]);
                let mut fields = vec![];
                for v in def.variants() { for f in &v.fields {
                    fields.push(J::O(vec![("name", J::s(f.name.to_string())), ("variant", J::s(v.name.to_string())), ("ty", J::s(tys(f.ty(tcx, args).skip_norm_wip()))), ("span", J::s(span(tcx, tcx.def_span(f.did))))]));
                } }
                adts.push(J::O(vec![("path", J::s(path(tcx, did))), ("span", J::s(span(tcx, tcx.def_span(did)))), ("union", J::B(def.is_union())), ("public", J::B(ev.is_reachable(id))),
                    ("fields", J::A(fields)),
                    ("reach", J::A(r.into_iter().map(|(p, tr)| J::A(vec![J::s(p), J::s(tr.join(" > "))])).collect()))]));
            }
            DefKind::Impl { of_trait: true } => {
                let tr = tcx.impl_trait_ref(did).skip_binder();
                let h = tcx.impl_trait_header(did);
                impls.push(J::O(vec![("trait", J::s(path(tcx, tr.def_id))), ("self", J::s(tys(tr.self_ty()))), ("span", J::s(span(tcx, tcx.def_span(did)))),
                    ("unsafe", J::B(h.safety.is_unsafe())), ("negative", J::B(matches!(h.polarity, ty::ImplPolarity::Negative)))]));
            }
            DefKind::Static { .. } => {
                let m = tcx.is_mutable_static(did);
                other.push(J::O(vec![("kind", J::s(if m { "static mut" } else { "static" })), ("path", J::s(path(tcx, did))), ("span", J::s(span(tcx, tcx.def_span(did)))), ("ty", J::s(tys(tcx.type_of(did).skip_binder())))]));
            }
            DefKind::ForeignMod => other.push(J::O(vec![("kind", J::s("extern block")), ("path", J::s(path(tcx, did))), ("span", J::s(span(tcx, tcx.def_span(did))))])),
            DefKind::Trait => if tcx.trait_def(did).safety.is_unsafe() { other.push(J::O(vec![("kind", J::s("unsafe trait")), ("path", J::s(path(tcx, did))), ("span", J::s(span(tcx, tcx.def_span(did))))])) },
            _ => {}
        }
    }
    let mut u = Unsafe { tcx, out: vec![] };
    tcx.hir_walk_toplevel_module(&mut u);
    let uo = std::mem::take(&mut u.out);
    let j = J::O(vec![("fns", J::A(fns)), ("adts", J::A(adts)), ("impls", J::A(impls)), ("other", J::A(other)), ("unsafe", J::A(uo))]);
    let mut s = String::new();
    j.write(&mut s);
    std::fs::write(format!("{out}/facts.json"), s).unwrap();
}
