use super::refs::*;
use crate::traits::iso::{IsoExt, ResultEitherIso, ResultValidatedIso, ComposedIso};
pub mod either_iso { use super::*;
law!{ forward [R: Clone, L: Clone] (r: Result<R, L>) -> Either<L, R> ; ResultEitherIso.forward(&r) ; match r { Ok(x) => Either::Right(x), Err(e) => Either::Left(e) } }
law!{ backward [R: Clone, L: Clone] (r: Either<L, R>) -> Result<R, L> ; ResultEitherIso.backward(&r) ; match r { Either::Right(x) => Ok(x), Either::Left(e) => Err(e) } }
law!{ round_trip [R: Clone, L: Clone] (r: Result<R, L>) -> Result<R, L> ; ResultEitherIso.backward(&ResultEitherIso.forward(&r)) ; r }
law!{ round_trip_back [R: Clone, L: Clone] (r: Either<L, R>) -> Either<L, R> ; ResultEitherIso.forward(&ResultEitherIso.backward(&r)) ; r }
law!{ forward__again [R: Clone, L: Clone] (r: Result<R, L>, z_r: Result<R, L>) -> (Either<L, R>, Either<L, R>) ; { let m0 = ResultEitherIso; let y1 = m0.forward(&r); let y2 = m0.forward(&z_r); (y1, y2) } ; { let y1 = { let r = r.clone(); match r { Ok(x) => Either::Right(x), Err(e) => Either::Left(e) } }; let y2 = { let r = z_r; match r { Ok(x) => Either::Right(x), Err(e) => Either::Left(e) } }; (y1, y2) } }
law!{ backward__again [R: Clone, L: Clone] (r: Either<L, R>, z_r: Either<L, R>) -> (Result<R, L>, Result<R, L>) ; { let m0 = ResultEitherIso; let y1 = m0.backward(&r); let y2 = m0.backward(&z_r); (y1, y2) } ; { let y1 = { let r = r.clone(); match r { Either::Right(x) => Ok(x), Either::Left(e) => Err(e) } }; let y2 = { let r = z_r; match r { Either::Right(x) => Ok(x), Either::Left(e) => Err(e) } }; (y1, y2) } }
}
pub mod validated_iso { use super::*;
law!{ forward [R: Clone, L: Clone] (r: Result<R, L>) -> Validated<L, R> ; ResultValidatedIso.forward(&r) ; match r { Ok(x) => Validated::Valid(x), Err(e) => inv(one(e)) } }
law!{ backward_valid [R: Clone, L: Clone] (x: R) -> Result<R, L> ; ResultValidatedIso.backward(&Validated::Valid(x)) ; Ok(x) }
law!{ backward_one [R: Clone, L: Clone] (e: L) -> Result<R, L> ; ResultValidatedIso.backward(&inv(one(e))) ; Err(e) }
law!{ round_trip [R: Clone, L: Clone] (r: Result<R, L>) -> Result<R, L> ; ResultValidatedIso.backward(&ResultValidatedIso.forward(&r)) ; r }
law!{ backward_many [R: Clone, L: Clone] (e: L, es: Vec<L>) -> Result<R, L> ; ResultValidatedIso.backward(&inv(self::cat(one(e), es))) ; Err(e) }
law!{ forward__again [R: Clone, L: Clone] (r: Result<R, L>, z_r: Result<R, L>) -> (Validated<L, R>, Validated<L, R>) ; { let m0 = ResultValidatedIso; let y1 = m0.forward(&r); let y2 = m0.forward(&z_r); (y1, y2) } ; { let y1 = { let r = r.clone(); match r { Ok(x) => Validated::Valid(x), Err(e) => inv(one(e)) } }; let y2 = { let r = z_r; match r { Ok(x) => Validated::Valid(x), Err(e) => inv(one(e)) } }; (y1, y2) } }
}
law!{ compose_forward [A: V, B: V, C: V, F: Fn(&A) -> B + Clone, G: Fn(&B) -> A + Clone, F2: Fn(&B) -> C + Clone, G2: Fn(&C) -> B + Clone] (f: F, g: G, f2: F2, g2: G2, a: A) -> C ; fi(f, g).iso_compose(fi(f2, g2)).forward(&a) ; f2(&f(&a)) }
law!{ compose_backward [A: V, B: V, C: V, F: Fn(&A) -> B + Clone, G: Fn(&B) -> A + Clone, F2: Fn(&B) -> C + Clone, G2: Fn(&C) -> B + Clone] (f: F, g: G, f2: F2, g2: G2, c: C) -> A ; fi(f, g).iso_compose(fi(f2, g2)).backward(&c) ; g(&g2(&c)) }
law!{ compose_struct [A: V, B: V, C: V, F: Fn(&A) -> B + Clone, G: Fn(&B) -> A + Clone, F2: Fn(&B) -> C + Clone, G2: Fn(&C) -> B + Clone] (f: F, g: G, f2: F2, g2: G2, a: A, c: C) -> (C, A) ; { let i = ComposedIso { first: fi(f, g), second: fi(f2, g2), _phantom: std::marker::PhantomData }; let x = i.forward(&a); (x, i.backward(&c)) } ; { let x = f2(&f(&a)); (x, g(&g2(&c))) } }
law!{ compose_modify [A: V, B: V, C: V, F: Fn(&A) -> B + Clone, G: Fn(&B) -> A + Clone, F2: Fn(&B) -> C + Clone, G2: Fn(&C) -> B + Clone, M: Fn(C) -> C] (f: F, g: G, f2: F2, g2: G2, m: M, a: A) -> A ; fi(f, g).iso_compose(fi(f2, g2)).modify(&a, |x| m(x)) ; g(&g2(&m(f2(&f(&a))))) }
law!{ inverse_forward [A: V, B: V, F: Fn(&A) -> B + Clone, G: Fn(&B) -> A + Clone] (f: F, g: G, b: B) -> A ; fi(f, g).inverse().forward(&b) ; g(&b) }
law!{ inverse_backward [A: V, B: V, F: Fn(&A) -> B + Clone, G: Fn(&B) -> A + Clone] (f: F, g: G, a: A) -> B ; fi(f, g).inverse().backward(&a) ; f(&a) }
law!{ map_from_target [A: V, B: V, R, F: Fn(&A) -> B, G: Fn(&B) -> A, H: Fn(&B) -> R] (f: F, g: G, h: H, a: A) -> R ; { let i = fi(f, g); let k = i.map_from_target(h); k(&a) } ; h(&f(&a)) }
law!{ map_from_source [A: V, B: V, R, F: Fn(&A) -> B, G: Fn(&B) -> A, H: Fn(&A) -> R] (f: F, g: G, h: H, b: B) -> R ; { let i = fi(f, g); let k = i.map_from_source(h); k(&b) } ; h(&g(&b)) }
law!{ convert_forward [A: V, B: V, F: Fn(&A) -> B, G: Fn(&B) -> A] (f: F, g: G, a: A) -> B ; fi(f, g).convert_forward(&a) ; f(&a) }
law!{ convert_backward [A: V, B: V, F: Fn(&A) -> B, G: Fn(&B) -> A] (f: F, g: G, b: B) -> A ; fi(f, g).convert_backward(&b) ; g(&b) }
law!{ modify [A: V, B: V, F: Fn(&A) -> B, G: Fn(&B) -> A, H: FnOnce(B) -> B] (f: F, g: G, h: H, a: A) -> A ; fi(f, g).modify(&a, h) ; g(&h(f(&a))) }
vlaw!{ verify_laws [A: V + PartialEq, B: V + PartialEq, F: Fn(&A) -> B, G: Fn(&B) -> A] (f: F, g: G, a: A, b: B) -> bool ; fi(f, g).verify_laws(&a, &b) ; g(&f(&a)) == a && f(&g(&b)) == b }
pub mod lifted { use super::*;
use crate::datatypes::iso_prism::LiftedPrismIso; use crate::datatypes::iso_lens::PairIso;
law!{ forward [A: V, B: V, F: Fn(&A) -> Option<B>, G: Fn(&Option<B>) -> A] (f: F, g: G, a: Option<A>) -> Option<B> ; { let i = LiftedPrismIso { inner: fi(f, g), _phantom: std::marker::PhantomData }; i.forward(&a) } ; match a { Some(x) => f(&x), None => None } }
law!{ backward [A: V, B: V, F: Fn(&A) -> Option<B>, G: Fn(&Option<B>) -> A] (f: F, g: G, b: Option<B>) -> Option<A> ; { let i = LiftedPrismIso { inner: fi(f, g), _phantom: std::marker::PhantomData }; i.backward(&b) } ; match b { Some(x) => Some(g(&Some(x))), None => None } }
law!{ pair_forward [A: V, B: V, S: V, F: Fn(&A) -> (B, S), G: Fn(&(B, S)) -> A] (f: F, g: G, a: A) -> (B, S) ; { let i = PairIso { inner: fi(f, g), _phantom: std::marker::PhantomData }; i.forward(&a) } ; f(&a) }
law!{ pair_backward [A: V, B: V, S: V, F: Fn(&A) -> (B, S), G: Fn(&(B, S)) -> A] (f: F, g: G, b: (B, S)) -> A ; { let i = PairIso { inner: fi(f, g), _phantom: std::marker::PhantomData }; i.backward(&b) } ; g(&b) }
}
law!{ compose_forward__again [A: V, B: V, C: V, F: Fn(&A) -> B + Clone, G: Fn(&B) -> A + Clone, F2: Fn(&B) -> C + Clone, G2: Fn(&C) -> B + Clone] (f: F, g: G, f2: F2, g2: G2, a: A, z_a: A) -> (C, C) ; { let m0 = fi(f, g).iso_compose(fi(f2, g2)); let y1 = m0.forward(&a); let y2 = m0.forward(&z_a); (y1, y2) } ; { let y1 = { let f = f.clone(); let g = g.clone(); let f2 = f2.clone(); let g2 = g2.clone(); let a = a.clone(); f2(&f(&a)) }; let y2 = { let a = z_a; f2(&f(&a)) }; (y1, y2) } }
law!{ compose_backward__again [A: V, B: V, C: V, F: Fn(&A) -> B + Clone, G: Fn(&B) -> A + Clone, F2: Fn(&B) -> C + Clone, G2: Fn(&C) -> B + Clone] (f: F, g: G, f2: F2, g2: G2, c: C, z_c: C) -> (A, A) ; { let m0 = fi(f, g).iso_compose(fi(f2, g2)); let y1 = m0.backward(&c); let y2 = m0.backward(&z_c); (y1, y2) } ; { let y1 = { let f = f.clone(); let g = g.clone(); let f2 = f2.clone(); let g2 = g2.clone(); let c = c.clone(); g(&g2(&c)) }; let y2 = { let c = z_c; g(&g2(&c)) }; (y1, y2) } }
law!{ inverse_forward__again [A: V, B: V, F: Fn(&A) -> B + Clone, G: Fn(&B) -> A + Clone] (f: F, g: G, b: B, z_b: B) -> (A, A) ; { let m0 = fi(f, g).inverse(); let y1 = m0.forward(&b); let y2 = m0.forward(&z_b); (y1, y2) } ; { let y1 = { let f = f.clone(); let g = g.clone(); let b = b.clone(); g(&b) }; let y2 = { let b = z_b; g(&b) }; (y1, y2) } }
law!{ inverse_backward__again [A: V, B: V, F: Fn(&A) -> B + Clone, G: Fn(&B) -> A + Clone] (f: F, g: G, a: A, z_a: A) -> (B, B) ; { let m0 = fi(f, g).inverse(); let y1 = m0.backward(&a); let y2 = m0.backward(&z_a); (y1, y2) } ; { let y1 = { let f = f.clone(); let g = g.clone(); let a = a.clone(); f(&a) }; let y2 = { let a = z_a; f(&a) }; (y1, y2) } }
law!{ convert_forward__again [A: V, B: V, F: Fn(&A) -> B + Clone, G: Fn(&B) -> A + Clone] (f: F, g: G, a: A, z_a: A) -> (B, B) ; { let m0 = fi(f, g); let y1 = m0.convert_forward(&a); let y2 = m0.convert_forward(&z_a); (y1, y2) } ; { let y1 = { let f = f.clone(); let g = g.clone(); let a = a.clone(); f(&a) }; let y2 = { let a = z_a; f(&a) }; (y1, y2) } }
law!{ convert_backward__again [A: V, B: V, F: Fn(&A) -> B + Clone, G: Fn(&B) -> A + Clone] (f: F, g: G, b: B, z_b: B) -> (A, A) ; { let m0 = fi(f, g); let y1 = m0.convert_backward(&b); let y2 = m0.convert_backward(&z_b); (y1, y2) } ; { let y1 = { let f = f.clone(); let g = g.clone(); let b = b.clone(); g(&b) }; let y2 = { let b = z_b; g(&b) }; (y1, y2) } }
law!{ modify__again [A: V, B: V, F: Fn(&A) -> B + Clone, G: Fn(&B) -> A + Clone, H: FnOnce(B) -> B + Clone] (f: F, g: G, h: H, a: A, z_a: A) -> (A, A) ; { let m0 = fi(f, g); let y1 = m0.modify(&a, h.clone()); let y2 = m0.modify(&z_a, h); (y1, y2) } ; { let y1 = { let f = f.clone(); let g = g.clone(); let h = h.clone(); let a = a.clone(); g(&h(f(&a))) }; let y2 = { let a = z_a; g(&h(f(&a))) }; (y1, y2) } }
