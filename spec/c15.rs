use super::refs::*;
use crate::datatypes::lens::Lens;
use crate::datatypes::prism::Prism;
use crate::datatypes::iso_lens::IsoLens;
use crate::datatypes::iso_prism::IsoPrism;
pub mod lens { use super::*;
law!{ get [S: V, A: V, G: Fn(&S) -> A, H: Fn(S, A) -> S] (g: G, h: H, s: S) -> A ; Lens::new(g, h).get(&s) ; g(&s) }
law!{ set_always [S: V, A: V, G: Fn(&S) -> A, H: Fn(S, A) -> S] (g: G, h: H, s: S, a: A) -> S ; Lens::new(g, h).set_always(s, a) ; h(s, a) }
law!{ set [S: V, A: V + PartialEq, G: Fn(&S) -> A, H: Fn(S, A) -> S] (g: G, h: H, s: S, a: A) -> S ; Lens::new(g, h).set(s, a) ; if g(&s) == a { s } else { h(s, a) } }
law!{ modify [S: V, A: V + PartialEq, G: Fn(&S) -> A, H: Fn(S, A) -> S, F: Fn(A) -> A] (g: G, h: H, f: F, s: S) -> S ; Lens::new(g, h).modify(s, |x| f(x)) ; { let v = f(g(&s)); if g(&s) == v { s } else { h(s, v) } } }
law!{ modify_always [S: V, A: V, G: Fn(&S) -> A, H: Fn(S, A) -> S, F: Fn(A) -> A] (g: G, h: H, f: F, s: S) -> S ; Lens::new(g, h).modify_always(s, |x| f(x)) ; { let v = f(g(&s)); h(s, v) } }
law!{ modify_is_set_of_get [S: V, A: V, G: Fn(&S) -> A + Clone, H: Fn(S, A) -> S + Clone, F: Fn(A) -> A] (g: G, h: H, f: F, s: S) -> S ; Lens::new(g, h).modify_always(s, |x| f(x)) ; { let l = Lens::new(g, h); let v = f(l.get(&s)); l.set_always(s, v) } }
law!{ fmap_get [S: V, A: V, B: V, G: Fn(&S) -> A, H: Fn(S, A) -> S, F: Fn(A) -> B, K: Fn(B) -> A] (g: G, h: H, f: F, k: K, s: S) -> B ; Lens::new(g, h).fmap(f, k).get(&s) ; f(g(&s)) }
law!{ fmap_set [S: V, A: V, B: V, G: Fn(&S) -> A, H: Fn(S, A) -> S, F: Fn(A) -> B, K: Fn(B) -> A] (g: G, h: H, f: F, k: K, s: S, b: B) -> S ; Lens::new(g, h).fmap(f, k).set_always(s, b) ; h(s, k(b)) }
law!{ fmap_modify [S: V, A: V, B: V, G: Fn(&S) -> A, H: Fn(S, A) -> S, F: Fn(A) -> B, K: Fn(B) -> A, M: Fn(B) -> B] (g: G, h: H, f: F, k: K, m: M, s: S) -> S ; Lens::new(g, h).fmap(f, k).modify_always(s, |b| m(b)) ; { let v = m(f(g(&s))); h(s, k(v)) } }
law!{ fmap_fmap_set [S: V, A: V, B: V, C: V, G: Fn(&S) -> A, H: Fn(S, A) -> S, F: Fn(A) -> B, K: Fn(B) -> A, F2: Fn(B) -> C, K2: Fn(C) -> B] (g: G, h: H, f: F, k: K, f2: F2, k2: K2, s: S, c: C) -> (C, S) ; { let l = Lens::new(g, h).fmap(f, k).fmap(f2, k2); let x = l.get(&s); (x, l.set_always(s, c)) } ; { let x = f2(f(g(&s))); (x, h(s, k(k2(c)))) } }
law!{ get__again [S: V, A: V, G: Fn(&S) -> A + Clone, H: Fn(S, A) -> S + Clone] (g: G, h: H, s: S, z_s: S) -> (A, A) ; { let m0 = Lens::new(g, h); let y1 = m0.get(&s); let y2 = m0.get(&z_s); (y1, y2) } ; { let y1 = { let g = g.clone(); let h = h.clone(); let s = s.clone(); g(&s) }; let y2 = { let s = z_s; g(&s) }; (y1, y2) } }
law!{ set_always__again [S: V, A: V, G: Fn(&S) -> A + Clone, H: Fn(S, A) -> S + Clone] (g: G, h: H, s: S, a: A, z_s: S) -> (S, S) ; { let m0 = Lens::new(g, h); let y1 = m0.set_always(s.clone(), a.clone()); let y2 = m0.set_always(z_s, a); (y1, y2) } ; { let y1 = { let g = g.clone(); let h = h.clone(); let s = s.clone(); let a = a.clone(); h(s, a) }; let y2 = { let s = z_s; h(s, a) }; (y1, y2) } }
law!{ set__again [S: V, A: V + PartialEq, G: Fn(&S) -> A + Clone, H: Fn(S, A) -> S + Clone] (g: G, h: H, s: S, a: A, z_s: S) -> (S, S) ; { let m0 = Lens::new(g, h); let y1 = m0.set(s.clone(), a.clone()); let y2 = m0.set(z_s, a); (y1, y2) } ; { let y1 = { let g = g.clone(); let h = h.clone(); let s = s.clone(); let a = a.clone(); if g(&s) == a { s } else { h(s, a) } }; let y2 = { let s = z_s; if g(&s) == a { s } else { h(s, a) } }; (y1, y2) } }
law!{ fmap_get__again [S: V, A: V, B: V, G: Fn(&S) -> A + Clone, H: Fn(S, A) -> S + Clone, F: Fn(A) -> B + Clone, K: Fn(B) -> A + Clone] (g: G, h: H, f: F, k: K, s: S, z_s: S) -> (B, B) ; { let m0 = Lens::new(g, h).fmap(f, k); let y1 = m0.get(&s); let y2 = m0.get(&z_s); (y1, y2) } ; { let y1 = { let g = g.clone(); let h = h.clone(); let f = f.clone(); let k = k.clone(); let s = s.clone(); f(g(&s)) }; let y2 = { let s = z_s; f(g(&s)) }; (y1, y2) } }
law!{ fmap_set__again [S: V, A: V, B: V, G: Fn(&S) -> A + Clone, H: Fn(S, A) -> S + Clone, F: Fn(A) -> B + Clone, K: Fn(B) -> A + Clone] (g: G, h: H, f: F, k: K, s: S, b: B, z_s: S) -> (S, S) ; { let m0 = Lens::new(g, h).fmap(f, k); let y1 = m0.set_always(s.clone(), b.clone()); let y2 = m0.set_always(z_s, b); (y1, y2) } ; { let y1 = { let g = g.clone(); let h = h.clone(); let f = f.clone(); let k = k.clone(); let s = s.clone(); let b = b.clone(); h(s, k(b)) }; let y2 = { let s = z_s; h(s, k(b)) }; (y1, y2) } }
}
pub mod lawful { use super::*;
// the three lens laws, for a lawful pair of accessors: a field of a pair
law!{ set_get [X: V, Y: V + PartialEq] (p: (X, Y), y: Y) -> Y ; { let l = Lens::new(|p: &(X, Y)| p.1.clone(), |p: (X, Y), y: Y| (p.0, y)); let q = l.set_always(p, y); l.get(&q) } ; y }
law!{ get_set [X: V, Y: V + PartialEq] (p: (X, Y)) -> (X, Y) ; { let l = Lens::new(|p: &(X, Y)| p.1.clone(), |p: (X, Y), y: Y| (p.0, y)); let y = l.get(&p); l.set_always(p, y) } ; p }
law!{ set_set [X: V, Y: V + PartialEq] (p: (X, Y), y: Y, z: Y) -> (X, Y) ; { let l = Lens::new(|p: &(X, Y)| p.1.clone(), |p: (X, Y), y: Y| (p.0, y)); let q = l.set_always(p, y); l.set_always(q, z) } ; (p.0, z) }
law!{ prism_review_preview [A: V] (a: A) -> Option<A> ; { let p = Prism::new(|s: &Option<A>| s.clone(), |a: &A| Some(a.clone())); p.preview(&p.review(&a)) } ; Some(a) }
law!{ prism_preview_review [A: V] (s: Option<A>) -> Option<Option<A>> ; { let p = Prism::new(|s: &Option<A>| s.clone(), |a: &A| Some(a.clone())); p.preview(&s).map(|a| p.review(&a)) } ; s.map(|a| Some(a)) }
}
pub mod prism { use super::*;
law!{ preview [S: V, A: V, P: Fn(&S) -> Option<A>, R: Fn(&A) -> S] (p: P, r: R, s: S) -> Option<A> ; Prism::new(p, r).preview(&s) ; p(&s) }
law!{ review [S: V, A: V, P: Fn(&S) -> Option<A>, R: Fn(&A) -> S] (p: P, r: R, a: A) -> S ; Prism::new(p, r).review(&a) ; r(&a) }
law!{ for_case [S: V, A: V, P: Fn(&S) -> Option<A>, R: Fn(&A) -> S] (p: P, r: R, s: S, a: A) -> (Option<A>, S) ; { let x = Prism::for_case::<P, R>(p, r); let y = x.preview(&s); (y, x.review(&a)) } ; { let y = p(&s); (y, r(&a)) } }
law!{ modify [S: V, A: V + PartialEq, P: Fn(&S) -> Option<A>, R: Fn(&A) -> S, F: FnOnce(A) -> A] (p: P, r: R, f: F, s: S) -> S ; Prism::new(p, r).modify(s, f) ; match p(&s) { Some(x) => { let y = f(x.clone()); if y == x { s } else { r(&y) } }, None => s } }
law!{ modify_no_match [S: V, A: V + PartialEq, R: Fn(&A) -> S, F: FnOnce(A) -> A] (r: R, f: F, s: S) -> S ; Prism::new(|_: &S| None, r).modify(s, f) ; s }
law!{ set_if_different [S: V, A: V + PartialEq, P: Fn(&S) -> Option<A>, R: Fn(&A) -> S] (p: P, r: R, s: S, a: A) -> S ; Prism::new(p, r).set_if_different(s, a) ; match p(&s) { Some(x) => if a == x { s } else { r(&a) }, None => r(&a) } }
law!{ preview__again [S: V, A: V, P: Fn(&S) -> Option<A> + Clone, R: Fn(&A) -> S + Clone] (p: P, r: R, s: S, z_s: S) -> (Option<A>, Option<A>) ; { let m0 = Prism::new(p, r); let y1 = m0.preview(&s); let y2 = m0.preview(&z_s); (y1, y2) } ; { let y1 = { let p = p.clone(); let r = r.clone(); let s = s.clone(); p(&s) }; let y2 = { let s = z_s; p(&s) }; (y1, y2) } }
law!{ review__again [S: V, A: V, P: Fn(&S) -> Option<A> + Clone, R: Fn(&A) -> S + Clone] (p: P, r: R, a: A, z_a: A) -> (S, S) ; { let m0 = Prism::new(p, r); let y1 = m0.review(&a); let y2 = m0.review(&z_a); (y1, y2) } ; { let y1 = { let p = p.clone(); let r = r.clone(); let a = a.clone(); r(&a) }; let y2 = { let a = z_a; r(&a) }; (y1, y2) } }
law!{ modify__again [S: V, A: V + PartialEq, P: Fn(&S) -> Option<A> + Clone, R: Fn(&A) -> S + Clone, F: FnOnce(A) -> A + Clone] (p: P, r: R, f: F, s: S, z_s: S) -> (S, S) ; { let m0 = Prism::new(p, r); let y1 = m0.modify(s.clone(), f.clone()); let y2 = m0.modify(z_s, f); (y1, y2) } ; { let y1 = { let p = p.clone(); let r = r.clone(); let f = f.clone(); let s = s.clone(); match p(&s) { Some(x) => { let y = f(x.clone()); if y == x { s } else { r(&y) } }, None => s } }; let y2 = { let s = z_s; match p(&s) { Some(x) => { let y = f(x.clone()); if y == x { s } else { r(&y) } }, None => s } }; (y1, y2) } }
law!{ modify_no_match__again [S: V, A: V + PartialEq, R: Fn(&A) -> S + Clone, F: FnOnce(A) -> A + Clone] (r: R, f: F, s: S, z_s: S) -> (S, S) ; { let m0 = Prism::new(|_: &S| None, r); let y1 = m0.modify(s.clone(), f.clone()); let y2 = m0.modify(z_s, f); (y1, y2) } ; { let y1 = { let r = r.clone(); let f = f.clone(); let s = s.clone(); s }; let y2 = { let s = z_s; s }; (y1, y2) } }
law!{ set_if_different__again [S: V, A: V + PartialEq, P: Fn(&S) -> Option<A> + Clone, R: Fn(&A) -> S + Clone] (p: P, r: R, s: S, a: A, z_s: S) -> (S, S) ; { let m0 = Prism::new(p, r); let y1 = m0.set_if_different(s.clone(), a.clone()); let y2 = m0.set_if_different(z_s, a); (y1, y2) } ; { let y1 = { let p = p.clone(); let r = r.clone(); let s = s.clone(); let a = a.clone(); match p(&s) { Some(x) => if a == x { s } else { r(&a) }, None => r(&a) } }; let y2 = { let s = z_s; match p(&s) { Some(x) => if a == x { s } else { r(&a) }, None => r(&a) } }; (y1, y2) } }
}
pub mod iso_lens { use super::*;
law!{ get [S: V, A: V, F: Fn(&S) -> A, G: Fn(&A) -> S] (f: F, g: G, s: S) -> A ; IsoLens::new(fi(f, g)).get(&s) ; f(&s) }
law!{ set [S: V, A: V, F: Fn(&S) -> A, G: Fn(&A) -> S] (f: F, g: G, a: A) -> S ; IsoLens::new(fi(f, g)).set(&a) ; g(&a) }
law!{ modify [S: V, A: V, F: Fn(&S) -> A, G: Fn(&A) -> S, M: FnOnce(A) -> A] (f: F, g: G, m: M, s: S) -> S ; IsoLens::new(fi(f, g)).modify(&s, m) ; g(&m(f(&s))) }
law!{ iso_ref [S: V, A: V, F: Fn(&S) -> A, G: Fn(&A) -> S] (f: F, g: G, s: S, a: A) -> (A, S) ; { let l = IsoLens::new(fi(f, g)); let x = l.iso_ref().forward(&s); let y = l.iso_ref().backward(&a); (x, y) } ; { let x = f(&s); (x, g(&a)) } }
law!{ compose_get [S: V, A: V, B: V, F: Fn(&S) -> A, G: Fn(&A) -> S, F2: Fn(&A) -> (B, S), G2: Fn(&(B, S)) -> A] (f: F, g: G, f2: F2, g2: G2, s: S) -> (B, S) ; IsoLens::new(fi(f, g)).compose(IsoLens::new(fi(f2, g2))).get(&s) ; f2(&f(&s)) }
law!{ compose_set [S: V, A: V, B: V, F: Fn(&S) -> A, G: Fn(&A) -> S, F2: Fn(&A) -> (B, S), G2: Fn(&(B, S)) -> A] (f: F, g: G, f2: F2, g2: G2, b: (B, S)) -> S ; IsoLens::new(fi(f, g)).compose(IsoLens::new(fi(f2, g2))).set(&b) ; g(&g2(&b)) }
law!{ compose_modify [S: V, A: V, B: V, F: Fn(&S) -> A, G: Fn(&A) -> S, F2: Fn(&A) -> (B, S), G2: Fn(&(B, S)) -> A, M: Fn((B, S)) -> (B, S)] (f: F, g: G, f2: F2, g2: G2, m: M, s: S) -> S ; IsoLens::new(fi(f, g)).compose(IsoLens::new(fi(f2, g2))).modify(&s, |x| m(x)) ; g(&g2(&m(f2(&f(&s))))) }
law!{ set_focus [S: V, A: V, F: Fn(&S) -> (A, S), G: Fn(&(A, S)) -> S] (f: F, g: G, s: S, a: A) -> S ; IsoLens::new(fi(f, g)).set_focus(&s, &a) ; g(&(a, s)) }
law!{ modify_focus [S: V, A: V, F: Fn(&S) -> (A, S), G: Fn(&(A, S)) -> S, M: FnOnce(A) -> A] (f: F, g: G, m: M, s: S) -> S ; IsoLens::new(fi(f, g)).modify_focus(&s, m) ; { let (a, t) = f(&s); let b = m(a); g(&(b, t)) } }
law!{ get__again [S: V, A: V, F: Fn(&S) -> A + Clone, G: Fn(&A) -> S + Clone] (f: F, g: G, s: S, z_s: S) -> (A, A) ; { let m0 = IsoLens::new(fi(f, g)); let y1 = m0.get(&s); let y2 = m0.get(&z_s); (y1, y2) } ; { let y1 = { let f = f.clone(); let g = g.clone(); let s = s.clone(); f(&s) }; let y2 = { let s = z_s; f(&s) }; (y1, y2) } }
law!{ set__again [S: V, A: V, F: Fn(&S) -> A + Clone, G: Fn(&A) -> S + Clone] (f: F, g: G, a: A, z_a: A) -> (S, S) ; { let m0 = IsoLens::new(fi(f, g)); let y1 = m0.set(&a); let y2 = m0.set(&z_a); (y1, y2) } ; { let y1 = { let f = f.clone(); let g = g.clone(); let a = a.clone(); g(&a) }; let y2 = { let a = z_a; g(&a) }; (y1, y2) } }
law!{ modify__again [S: V, A: V, F: Fn(&S) -> A + Clone, G: Fn(&A) -> S + Clone, M: FnOnce(A) -> A + Clone] (f: F, g: G, m: M, s: S, z_s: S) -> (S, S) ; { let m0 = IsoLens::new(fi(f, g)); let y1 = m0.modify(&s, m.clone()); let y2 = m0.modify(&z_s, m); (y1, y2) } ; { let y1 = { let f = f.clone(); let g = g.clone(); let m = m.clone(); let s = s.clone(); g(&m(f(&s))) }; let y2 = { let s = z_s; g(&m(f(&s))) }; (y1, y2) } }
law!{ compose_get__again [S: V, A: V, B: V, F: Fn(&S) -> A + Clone, G: Fn(&A) -> S + Clone, F2: Fn(&A) -> (B, S) + Clone, G2: Fn(&(B, S)) -> A + Clone] (f: F, g: G, f2: F2, g2: G2, s: S, z_s: S) -> ((B, S), (B, S)) ; { let m0 = IsoLens::new(fi(f, g)).compose(IsoLens::new(fi(f2, g2))); let y1 = m0.get(&s); let y2 = m0.get(&z_s); (y1, y2) } ; { let y1 = { let f = f.clone(); let g = g.clone(); let f2 = f2.clone(); let g2 = g2.clone(); let s = s.clone(); f2(&f(&s)) }; let y2 = { let s = z_s; f2(&f(&s)) }; (y1, y2) } }
law!{ compose_set__again [S: V, A: V, B: V, F: Fn(&S) -> A + Clone, G: Fn(&A) -> S + Clone, F2: Fn(&A) -> (B, S) + Clone, G2: Fn(&(B, S)) -> A + Clone] (f: F, g: G, f2: F2, g2: G2, b: (B, S), z_b: (B, S)) -> (S, S) ; { let m0 = IsoLens::new(fi(f, g)).compose(IsoLens::new(fi(f2, g2))); let y1 = m0.set(&b); let y2 = m0.set(&z_b); (y1, y2) } ; { let y1 = { let f = f.clone(); let g = g.clone(); let f2 = f2.clone(); let g2 = g2.clone(); let b = b.clone(); g(&g2(&b)) }; let y2 = { let b = z_b; g(&g2(&b)) }; (y1, y2) } }
law!{ set_focus__again [S: V, A: V, F: Fn(&S) -> (A, S) + Clone, G: Fn(&(A, S)) -> S + Clone] (f: F, g: G, s: S, a: A, z_s: S) -> (S, S) ; { let m0 = IsoLens::new(fi(f, g)); let y1 = m0.set_focus(&s, &a); let y2 = m0.set_focus(&z_s, &a); (y1, y2) } ; { let y1 = { let f = f.clone(); let g = g.clone(); let s = s.clone(); let a = a.clone(); g(&(a, s)) }; let y2 = { let s = z_s; g(&(a, s)) }; (y1, y2) } }
law!{ modify_focus__again [S: V, A: V, F: Fn(&S) -> (A, S) + Clone, G: Fn(&(A, S)) -> S + Clone, M: FnOnce(A) -> A + Clone] (f: F, g: G, m: M, s: S, z_s: S) -> (S, S) ; { let m0 = IsoLens::new(fi(f, g)); let y1 = m0.modify_focus(&s, m.clone()); let y2 = m0.modify_focus(&z_s, m); (y1, y2) } ; { let y1 = { let f = f.clone(); let g = g.clone(); let m = m.clone(); let s = s.clone(); { let (a, t) = f(&s); let b = m(a); g(&(b, t)) } }; let y2 = { let s = z_s; { let (a, t) = f(&s); let b = m(a); g(&(b, t)) } }; (y1, y2) } }
}
pub mod iso_prism { use super::*;
law!{ preview [S: V, A: V, F: Fn(&S) -> Option<A>, G: Fn(&Option<A>) -> S] (f: F, g: G, s: S) -> Option<A> ; IsoPrism::new(fi(f, g)).preview(&s) ; f(&s) }
law!{ review [S: V, A: V, F: Fn(&S) -> Option<A>, G: Fn(&Option<A>) -> S] (f: F, g: G, a: A) -> S ; IsoPrism::new(fi(f, g)).review(&a) ; g(&Some(a)) }
law!{ compose_preview [S: V, A: V, B: V, F: Fn(&S) -> Option<A>, G: Fn(&Option<A>) -> S, F2: Fn(&A) -> Option<B>, G2: Fn(&Option<B>) -> A] (f: F, g: G, f2: F2, g2: G2, s: S) -> Option<B> ; IsoPrism::new(fi(f, g)).compose(IsoPrism::new(fi(f2, g2))).preview(&s) ; match f(&s) { Some(a) => f2(&a), None => None } }
law!{ compose_review [S: V, A: V, B: V, F: Fn(&S) -> Option<A>, G: Fn(&Option<A>) -> S, F2: Fn(&A) -> Option<B>, G2: Fn(&Option<B>) -> A] (f: F, g: G, f2: F2, g2: G2, b: B) -> S ; IsoPrism::new(fi(f, g)).compose(IsoPrism::new(fi(f2, g2))).review(&b) ; g(&Some(g2(&Some(b)))) }
law!{ compose_backward_none [S: V, A: V, B: V, F: Fn(&S) -> Option<A>, G: Fn(&Option<A>) -> S, F2: Fn(&A) -> Option<B>, G2: Fn(&Option<B>) -> A] (f: F, g: G, f2: F2, g2: G2) -> S ; IsoPrism::new(fi(f, g)).compose(IsoPrism::new(fi(f2, g2))).iso.backward(&None) ; g(&None) }
law!{ preview__again [S: V, A: V, F: Fn(&S) -> Option<A> + Clone, G: Fn(&Option<A>) -> S + Clone] (f: F, g: G, s: S, z_s: S) -> (Option<A>, Option<A>) ; { let m0 = IsoPrism::new(fi(f, g)); let y1 = m0.preview(&s); let y2 = m0.preview(&z_s); (y1, y2) } ; { let y1 = { let f = f.clone(); let g = g.clone(); let s = s.clone(); f(&s) }; let y2 = { let s = z_s; f(&s) }; (y1, y2) } }
law!{ review__again [S: V, A: V, F: Fn(&S) -> Option<A> + Clone, G: Fn(&Option<A>) -> S + Clone] (f: F, g: G, a: A, z_a: A) -> (S, S) ; { let m0 = IsoPrism::new(fi(f, g)); let y1 = m0.review(&a); let y2 = m0.review(&z_a); (y1, y2) } ; { let y1 = { let f = f.clone(); let g = g.clone(); let a = a.clone(); g(&Some(a)) }; let y2 = { let a = z_a; g(&Some(a)) }; (y1, y2) } }
law!{ compose_preview__again [S: V, A: V, B: V, F: Fn(&S) -> Option<A> + Clone, G: Fn(&Option<A>) -> S + Clone, F2: Fn(&A) -> Option<B> + Clone, G2: Fn(&Option<B>) -> A + Clone] (f: F, g: G, f2: F2, g2: G2, s: S, z_s: S) -> (Option<B>, Option<B>) ; { let m0 = IsoPrism::new(fi(f, g)).compose(IsoPrism::new(fi(f2, g2))); let y1 = m0.preview(&s); let y2 = m0.preview(&z_s); (y1, y2) } ; { let y1 = { let f = f.clone(); let g = g.clone(); let f2 = f2.clone(); let g2 = g2.clone(); let s = s.clone(); match f(&s) { Some(a) => f2(&a), None => None } }; let y2 = { let s = z_s; match f(&s) { Some(a) => f2(&a), None => None } }; (y1, y2) } }
law!{ compose_review__again [S: V, A: V, B: V, F: Fn(&S) -> Option<A> + Clone, G: Fn(&Option<A>) -> S + Clone, F2: Fn(&A) -> Option<B> + Clone, G2: Fn(&Option<B>) -> A + Clone] (f: F, g: G, f2: F2, g2: G2, b: B, z_b: B) -> (S, S) ; { let m0 = IsoPrism::new(fi(f, g)).compose(IsoPrism::new(fi(f2, g2))); let y1 = m0.review(&b); let y2 = m0.review(&z_b); (y1, y2) } ; { let y1 = { let f = f.clone(); let g = g.clone(); let f2 = f2.clone(); let g2 = g2.clone(); let b = b.clone(); g(&Some(g2(&Some(b)))) }; let y2 = { let b = z_b; g(&Some(g2(&Some(b)))) }; (y1, y2) } }
}
