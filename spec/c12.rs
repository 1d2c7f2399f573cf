use super::refs::*;
use crate::datatypes::cont::{Cont, ContFn2};
use crate::transformers::{ContT, MonadTransformer};
use std::sync::Arc;
/// Computations with every way of using the continuation: `i` picks how.
pub fn user<R: V, A: V, P: Fn(R) -> R + V, Q: Fn(R, R) -> R + V>(i: u8, a: A, b: A, r: R, p: P, q: Q) -> Cont<R, A> { Cont::new(move |k| match i { 0 => k(a.clone()), 1 => p(k(a.clone())), 2 => r.clone(), _ => { let x = k(a.clone()); let y = k(b.clone()); q(x, y) } }) }
pub fn used<R: V, A: V, P: Fn(R) -> R, Q: Fn(R, R) -> R>(i: u8, a: A, b: A, r: R, p: P, q: Q, k: impl Fn(A) -> R) -> R { match i { 0 => k(a), 1 => p(k(a)), 2 => r, _ => { let x = k(a); let y = k(b); q(x, y) } } }
law!{ pure [R: V, A: V, K: Fn(A) -> R + V] (a: A, k: K) -> R ; Cont::<R, A>::pure(a).run(k) ; k(a) }
law!{ return_cont [R: V, A: V, K: Fn(A) -> R + V] (a: A, k: K) -> R ; Cont::<R, A>::return_cont(a).run(k) ; k(a) }
law!{ run_opaque [R: V, A: V, F: Fn(Arc<dyn Fn(A) -> R + Send + Sync>) -> R + V, K: Fn(A) -> R + V] (f: F, k: K) -> R ; Cont::<R, A>::new(f).run(k) ; f(Arc::new(k)) }
law!{ run_ [R: V, A: V, P: Fn(R) -> R + V, Q: Fn(R, R) -> R + V, K: Fn(A) -> R + V] (i: u8, a: A, b: A, r: R, p: P, q: Q, k: K) -> R ; user(i, a, b, r, p, q).run(k) ; used(i, a, b, r, p, q, k) }
law!{ clone_ [R: V, A: V, P: Fn(R) -> R + V, Q: Fn(R, R) -> R + V, K: Fn(A) -> R + V] (i: u8, a: A, b: A, r: R, p: P, q: Q, k: K) -> R ; user(i, a, b, r, p, q).clone().run(k) ; used(i, a, b, r, p, q, k) }
law!{ fmap [R: V, A: V, B: V, P: Fn(R) -> R + V, Q: Fn(R, R) -> R + V, F: Fn(A) -> B + V, K: Fn(B) -> R + V] (i: u8, a: A, b: A, r: R, p: P, q: Q, f: F, k: K) -> R ; user(i, a, b, r, p, q).fmap(f).run(k) ; used(i, a, b, r, p, q, move |x| k(f(x))) }
law!{ bind [R: V, A: V, B: V, P: Fn(R) -> R + V, Q: Fn(R, R) -> R + V, F: Fn(A, Arc<dyn Fn(B) -> R + Send + Sync>) -> R + V, K: Fn(B) -> R + V] (i: u8, a: A, b: A, r: R, p: P, q: Q, f: F, k: K) -> R ; user(i, a, b, r, p, q).bind(move |x: A| { let f = f.clone(); Cont::new(move |k| f(x.clone(), k)) }).run(k) ; used(i, a, b, r, p, q, move |x| f(x, Arc::new(k.clone()))) }
law!{ bind_users [R: V, A: V, P: Fn(R) -> R + V, Q: Fn(R, R) -> R + V, F: Fn(A) -> A + V, K: Fn(A) -> R + V] (i: u8, j: u8, a: A, b: A, r: R, p: P, q: Q, f: F, k: K) -> R ; { let (b2, r2, p2, q2) = (b.clone(), r.clone(), p.clone(), q.clone()); user(i, a, b, r, p, q).bind(move |x: A| user(j, f(x), b2.clone(), r2.clone(), p2.clone(), q2.clone())).run(k) } ; { let (b2, r2, p2, q2) = (b.clone(), r.clone(), p.clone(), q.clone()); used(i, a, b, r, p, q, move |x| used(j, f(x), b2.clone(), r2.clone(), p2.clone(), q2.clone(), k.clone())) } }
law!{ left_identity [R: V, A: V, B: V, F: Fn(A) -> B + V, P: Fn(R) -> R + V, K: Fn(B) -> R + V] (a: A, f: F, p: P, k: K) -> R ; Cont::<R, A>::pure(a).bind(move |x: A| { let (y, p) = (f(x), p.clone()); Cont::new(move |k| p(k(y.clone()))) }).run(k) ; { let y = f(a); p(k(y)) } }
law!{ right_identity [R: V, A: V, P: Fn(R) -> R + V, Q: Fn(R, R) -> R + V, K: Fn(A) -> R + V] (i: u8, a: A, b: A, r: R, p: P, q: Q, k: K) -> R ; user(i, a, b, r, p, q).bind(|x: A| Cont::pure(x)).run(k) ; used(i, a, b, r, p, q, k) }
law!{ associativity [R: V, A: V, B: V, C: V, P: Fn(R) -> R + V, Q: Fn(R, R) -> R + V, F: Fn(A) -> B + V, G: Fn(B) -> C + V, S: Fn(R) -> R + V, T: Fn(R) -> R + V, K: Fn(C) -> R + V] (i: u8, a: A, b: A, r: R, p: P, q: Q, f: F, g: G, s: S, t: T, k: K) -> R ; user(i, a, b, r, p, q).bind(move |x: A| { let (y, s) = (f(x), s.clone()); Cont::new(move |k| s(k(y.clone()))) }).bind(move |y: B| { let (z, t) = (g(y), t.clone()); Cont::new(move |k| t(k(z.clone()))) }).run(k) ; used(i, a, b, r, p, q, move |x| { let y = f(x); s({ let z = g(y); t(k(z)) }) }) }
law!{ apply [R: V, A: V, B: V, P: Fn(R) -> R + V, Q: Fn(R, R) -> R + V, F: Fn(A) -> B + V, S: Fn(R) -> R + V, K: Fn(B) -> R + V] (i: u8, a: A, b: A, r: R, p: P, q: Q, f: F, s: S, k: K) -> R ; user(i, a, b, r, p, q).apply(Cont::<R, ContFn2<A, B>>::new(move |k| s(k(Arc::new(f.clone()))))).run(k) ; s(used(i, a, b, r, p, q, move |x| k(f(x)))) }
law!{ apply_abort [R: V, A: V, B: V, P: Fn(R) -> R + V, Q: Fn(R, R) -> R + V, K: Fn(B) -> R + V] (i: u8, a: A, b: A, r: R, s: R, p: P, q: Q, k: K) -> R ; user(i, a, b, r, p, q).apply(Cont::<R, ContFn2<A, B>>::new(move |_| s.clone())).run(k) ; s }
law!{ call_cc_unused [R: V, A: V, B: V, P: Fn(R) -> R + V, K: Fn(A) -> R + V] (a: A, p: P, k: K) -> R ; ContT::<R, R, A>::call_cc::<B, _>(move |_| { let (a, p) = (a.clone(), p.clone()); ContT::new(move |k: Arc<dyn Fn(A) -> R + Send + Sync>| p(k(a.clone()))) }).run(k) ; p(k(a)) }
law!{ call_cc_escape [R: V, A: V, P: Fn(R) -> R + V, K: Fn(A) -> R + V] (a: A, b: A, p: P, k: K) -> R ; ContT::<R, R, A>::call_cc::<A, _>(move |esc| { let (b, p) = (b.clone(), p.clone()); esc(a.clone()).bind(move |_: A| { let (b, p) = (b.clone(), p.clone()); ContT::new(move |k: Arc<dyn Fn(A) -> R + Send + Sync>| p(k(b.clone()))) }) }).run(k) ; k(a) }
law!{ t_run [R: V, M: V, A: V, F: Fn(Arc<dyn Fn(A) -> M + Send + Sync>) -> M + V, K: Fn(A) -> M + V] (f: F, k: K) -> M ; ContT::<R, M, A>::new(f).run(k) ; f(Arc::new(k)) }
law!{ t_pure [R: V, M: V, A: V, K: Fn(A) -> M + V] (a: A, k: K) -> M ; ContT::<R, M, A>::pure(a).run(k) ; k(a) }
law!{ t_fmap [R: V, M: V, A: V, B: V, P: Fn(M) -> M + V, F: Fn(A) -> B + V, K: Fn(B) -> M + V] (a: A, p: P, f: F, k: K) -> M ; ContT::<R, M, A>::new(move |k| p(k(a.clone()))).fmap(f).run(k) ; p(k(f(a))) }
law!{ t_bind [R: V, M: V, A: V, B: V, P: Fn(M) -> M + V, Q: Fn(M) -> M + V, F: Fn(A) -> B + V, K: Fn(B) -> M + V] (a: A, p: P, q: Q, f: F, k: K) -> M ; ContT::<R, M, A>::new(move |k| p(k(a.clone()))).bind(move |x| { let (y, q) = (f(x), q.clone()); ContT::new(move |k: Arc<dyn Fn(B) -> M + Send + Sync>| q(k(y.clone()))) }).run(k) ; p({ let y = f(a); q(k(y)) }) }
law!{ t_to_cont [R: V, A: V, P: Fn(R) -> R + V, K: Fn(A) -> R + V] (a: A, p: P, k: K) -> R ; ContT::<R, Id<R>, A>::new(move |k: Arc<dyn Fn(A) -> Id<R> + Send + Sync>| Id::new(p(k(a.clone()).into_inner()))).to_cont().run(k) ; p(k(a)) }
law!{ t_from_cont [R: V, A: V, P: Fn(R) -> R + V, K: Fn(A) -> R + V] (a: A, p: P, k: K) -> R ; ContT::<R, Id<R>, A>::from_cont(Cont::new(move |k| p(k(a.clone())))).run(move |x| Id::new(k(x))).into_inner() ; p(k(a)) }
law!{ from_t [R: V, A: V, P: Fn(R) -> R + V, K: Fn(A) -> R + V] (a: A, p: P, k: K) -> R ; Cont::from(ContT::<R, Id<R>, A>::new(move |k: Arc<dyn Fn(A) -> Id<R> + Send + Sync>| Id::new(p(k(a.clone()).into_inner())))).run(k) ; p(k(a)) }
law!{ call_cc_method_return [R: V, A: V, B: V + Copy, P: Fn(R) -> R + V + Copy, K: Fn(B) -> R + V] (x: A, b: B, p: P, k: K) -> R ; Cont::<R, A>::pure(x).call_cc(move |_| Cont::new(move |k| p(k(b)))).run(k) ; p(k(b)) }
law!{ call_cc_method_escape [R: V, A: V, B: V + Copy, P: Fn(R) -> R + V + Copy, K: Fn(B) -> R + V] (x: A, a: B, b: B, p: P, k: K) -> R ; Cont::<R, A>::pure(x).call_cc(move |esc: Box<dyn Fn(B) -> Cont<R, A> + Send + Sync>| esc(a).bind(move |_: A| Cont::new(move |k| p(k(b))))).run(k) ; k(a) }
law!{ call_cc_method_escape_late [R: V, A: V, B: V + Copy, P: Fn(R) -> R + V + Copy, Q: Fn(R) -> R + V + Copy, K: Fn(B) -> R + V] (x: A, a: B, b: B, p: P, q: Q, k: K) -> R ; Cont::<R, A>::pure(x).call_cc(move |esc: Box<dyn Fn(B) -> Cont<R, A> + Send + Sync>| { let c = esc(a); Cont::<R, B>::new(move |k| q(k(b))).bind(move |_| c.clone().bind(move |_: A| Cont::new(move |k| p(k(b))))) }).run(k) ; q(k(a)) }
law!{ call_cc_method_escape_twice [R: V, A: V, B: V + Copy, P: Fn(A) -> R + V + Copy, Q: Fn(R, R) -> R + V + Copy, K: Fn(B) -> R + V] (x: A, a: B, b: B, p: P, q: Q, k: K) -> R ; Cont::<R, A>::pure(x).call_cc(move |esc: Box<dyn Fn(B) -> Cont<R, A> + Send + Sync>| { let (c, d) = (esc(a), esc(b)); Cont::<R, B>::new(move |_| q(c.run(p), d.run(p))) }).run(k) ; { let (x, y) = (k(a), k(b)); q(x, y) } }
law!{ call_cc_escape_twice [R: V, A: V, P: Fn(A) -> R + V, Q: Fn(R, R) -> R + V, K: Fn(A) -> R + V] (a: A, b: A, p: P, q: Q, k: K) -> R ; ContT::<R, R, A>::call_cc::<A, _>(move |esc| { let (c, d) = (esc(a.clone()), esc(b.clone())); let (p, q) = (p.clone(), q.clone()); ContT::new(move |_k: Arc<dyn Fn(A) -> R + Send + Sync>| q(c.run(p.clone()), d.run(p.clone()))) }).run(k) ; { let (x, y) = (k(a), k(b)); q(x, y) } }
law!{ t_lift_pure [R: V, A: V, K: Fn(A) -> Id<A> + V] (a: A, k: K) -> Id<A> ; <ContT<R, Id<A>, A> as MonadTransformer>::lift(Id::new(a.clone())).run(k.clone()) ; k(a) }
law!{ t_clone [R: V, M: V, A: V, F: Fn(Arc<dyn Fn(A) -> M + Send + Sync>) -> M + V, K: Fn(A) -> M + V] (f: F, k: K) -> M ; ContT::<R, M, A>::new(f).clone().run(k) ; f(Arc::new(k)) }
law!{ pure__again [R: V, A: V, K: Fn(A) -> R + V] (a: A, k: K, z_k: K) -> (R, R) ; { let m0 = Cont::<R, A>::pure(a); let y1 = m0.run(k.clone()); let y2 = m0.run(z_k); (y1, y2) } ; { let y1 = { let a = a.clone(); let k = k.clone(); k(a) }; let y2 = { let k = z_k; k(a) }; (y1, y2) } }
law!{ return_cont__again [R: V, A: V, K: Fn(A) -> R + V] (a: A, k: K, z_k: K) -> (R, R) ; { let m0 = Cont::<R, A>::return_cont(a); let y1 = m0.run(k.clone()); let y2 = m0.run(z_k); (y1, y2) } ; { let y1 = { let a = a.clone(); let k = k.clone(); k(a) }; let y2 = { let k = z_k; k(a) }; (y1, y2) } }
law!{ run_opaque__again [R: V, A: V, F: Fn(Arc<dyn Fn(A) -> R + Send + Sync>) -> R + V, K: Fn(A) -> R + V] (f: F, k: K, z_k: K) -> (R, R) ; { let m0 = Cont::<R, A>::new(f); let y1 = m0.run(k.clone()); let y2 = m0.run(z_k); (y1, y2) } ; { let y1 = { let f = f.clone(); let k = k.clone(); f(Arc::new(k)) }; let y2 = { let k = z_k; f(Arc::new(k)) }; (y1, y2) } }
law!{ run___again [R: V, A: V, P: Fn(R) -> R + V, Q: Fn(R, R) -> R + V, K: Fn(A) -> R + V] (i: u8, a: A, b: A, r: R, p: P, q: Q, k: K, z_k: K) -> (R, R) ; { let m0 = user(i, a, b, r, p, q); let y1 = m0.run(k.clone()); let y2 = m0.run(z_k); (y1, y2) } ; { let y1 = { let i = i.clone(); let a = a.clone(); let b = b.clone(); let r = r.clone(); let p = p.clone(); let q = q.clone(); let k = k.clone(); used(i, a, b, r, p, q, k) }; let y2 = { let k = z_k; used(i, a, b, r, p, q, k) }; (y1, y2) } }
law!{ clone___again [R: V, A: V, P: Fn(R) -> R + V, Q: Fn(R, R) -> R + V, K: Fn(A) -> R + V] (i: u8, a: A, b: A, r: R, p: P, q: Q, k: K, z_k: K) -> (R, R) ; { let m0 = user(i, a, b, r, p, q).clone(); let y1 = m0.run(k.clone()); let y2 = m0.run(z_k); (y1, y2) } ; { let y1 = { let i = i.clone(); let a = a.clone(); let b = b.clone(); let r = r.clone(); let p = p.clone(); let q = q.clone(); let k = k.clone(); used(i, a, b, r, p, q, k) }; let y2 = { let k = z_k; used(i, a, b, r, p, q, k) }; (y1, y2) } }
law!{ fmap__again [R: V, A: V, B: V, P: Fn(R) -> R + V, Q: Fn(R, R) -> R + V, F: Fn(A) -> B + V, K: Fn(B) -> R + V] (i: u8, a: A, b: A, r: R, p: P, q: Q, f: F, k: K, z_k: K) -> (R, R) ; { let m0 = user(i, a, b, r, p, q).fmap(f); let y1 = m0.run(k.clone()); let y2 = m0.run(z_k); (y1, y2) } ; { let y1 = { let i = i.clone(); let a = a.clone(); let b = b.clone(); let r = r.clone(); let p = p.clone(); let q = q.clone(); let f = f.clone(); let k = k.clone(); used(i, a, b, r, p, q, move |x| k(f(x))) }; let y2 = { let k = z_k; used(i, a, b, r, p, q, move |x| k(f(x))) }; (y1, y2) } }
law!{ bind__again [R: V, A: V, B: V, P: Fn(R) -> R + V, Q: Fn(R, R) -> R + V, F: Fn(A, Arc<dyn Fn(B) -> R + Send + Sync>) -> R + V, K: Fn(B) -> R + V] (i: u8, a: A, b: A, r: R, p: P, q: Q, f: F, k: K, z_k: K) -> (R, R) ; { let m0 = user(i, a, b, r, p, q).bind(move |x: A| { let f = f.clone(); Cont::new(move |k| f(x.clone(), k)) }); let y1 = m0.run(k.clone()); let y2 = m0.run(z_k); (y1, y2) } ; { let y1 = { let i = i.clone(); let a = a.clone(); let b = b.clone(); let r = r.clone(); let p = p.clone(); let q = q.clone(); let f = f.clone(); let k = k.clone(); used(i, a, b, r, p, q, move |x| f(x, Arc::new(k.clone()))) }; let y2 = { let k = z_k; used(i, a, b, r, p, q, move |x| f(x, Arc::new(k.clone()))) }; (y1, y2) } }
law!{ left_identity__again [R: V, A: V, B: V, F: Fn(A) -> B + V, P: Fn(R) -> R + V, K: Fn(B) -> R + V] (a: A, f: F, p: P, k: K, z_k: K) -> (R, R) ; { let m0 = Cont::<R, A>::pure(a).bind(move |x: A| { let (y, p) = (f(x), p.clone()); Cont::new(move |k| p(k(y.clone()))) }); let y1 = m0.run(k.clone()); let y2 = m0.run(z_k); (y1, y2) } ; { let y1 = { let a = a.clone(); let f = f.clone(); let p = p.clone(); let k = k.clone(); { let y = f(a); p(k(y)) } }; let y2 = { let k = z_k; { let y = f(a); p(k(y)) } }; (y1, y2) } }
law!{ right_identity__again [R: V, A: V, P: Fn(R) -> R + V, Q: Fn(R, R) -> R + V, K: Fn(A) -> R + V] (i: u8, a: A, b: A, r: R, p: P, q: Q, k: K, z_k: K) -> (R, R) ; { let m0 = user(i, a, b, r, p, q).bind(|x: A| Cont::pure(x)); let y1 = m0.run(k.clone()); let y2 = m0.run(z_k); (y1, y2) } ; { let y1 = { let i = i.clone(); let a = a.clone(); let b = b.clone(); let r = r.clone(); let p = p.clone(); let q = q.clone(); let k = k.clone(); used(i, a, b, r, p, q, k) }; let y2 = { let k = z_k; used(i, a, b, r, p, q, k) }; (y1, y2) } }
law!{ associativity__again [R: V, A: V, B: V, C: V, P: Fn(R) -> R + V, Q: Fn(R, R) -> R + V, F: Fn(A) -> B + V, G: Fn(B) -> C + V, S: Fn(R) -> R + V, T: Fn(R) -> R + V, K: Fn(C) -> R + V] (i: u8, a: A, b: A, r: R, p: P, q: Q, f: F, g: G, s: S, t: T, k: K, z_k: K) -> (R, R) ; { let m0 = user(i, a, b, r, p, q).bind(move |x: A| { let (y, s) = (f(x), s.clone()); Cont::new(move |k| s(k(y.clone()))) }).bind(move |y: B| { let (z, t) = (g(y), t.clone()); Cont::new(move |k| t(k(z.clone()))) }); let y1 = m0.run(k.clone()); let y2 = m0.run(z_k); (y1, y2) } ; { let y1 = { let i = i.clone(); let a = a.clone(); let b = b.clone(); let r = r.clone(); let p = p.clone(); let q = q.clone(); let f = f.clone(); let g = g.clone(); let s = s.clone(); let t = t.clone(); let k = k.clone(); used(i, a, b, r, p, q, move |x| { let y = f(x); s({ let z = g(y); t(k(z)) }) }) }; let y2 = { let k = z_k; used(i, a, b, r, p, q, move |x| { let y = f(x); s({ let z = g(y); t(k(z)) }) }) }; (y1, y2) } }
law!{ apply__again [R: V, A: V, B: V, P: Fn(R) -> R + V, Q: Fn(R, R) -> R + V, F: Fn(A) -> B + V, S: Fn(R) -> R + V, K: Fn(B) -> R + V] (i: u8, a: A, b: A, r: R, p: P, q: Q, f: F, s: S, k: K, z_k: K) -> (R, R) ; { let m0 = user(i, a, b, r, p, q).apply(Cont::<R, ContFn2<A, B>>::new(move |k| s(k(Arc::new(f.clone()))))); let y1 = m0.run(k.clone()); let y2 = m0.run(z_k); (y1, y2) } ; { let y1 = { let i = i.clone(); let a = a.clone(); let b = b.clone(); let r = r.clone(); let p = p.clone(); let q = q.clone(); let f = f.clone(); let s = s.clone(); let k = k.clone(); s(used(i, a, b, r, p, q, move |x| k(f(x)))) }; let y2 = { let k = z_k; s(used(i, a, b, r, p, q, move |x| k(f(x)))) }; (y1, y2) } }
law!{ apply_abort__again [R: V, A: V, B: V, P: Fn(R) -> R + V, Q: Fn(R, R) -> R + V, K: Fn(B) -> R + V] (i: u8, a: A, b: A, r: R, s: R, p: P, q: Q, k: K, z_k: K) -> (R, R) ; { let m0 = user(i, a, b, r, p, q).apply(Cont::<R, ContFn2<A, B>>::new(move |_| s.clone())); let y1 = m0.run(k.clone()); let y2 = m0.run(z_k); (y1, y2) } ; { let y1 = { let i = i.clone(); let a = a.clone(); let b = b.clone(); let r = r.clone(); let s = s.clone(); let p = p.clone(); let q = q.clone(); let k = k.clone(); s }; let y2 = { let k = z_k; s }; (y1, y2) } }
law!{ call_cc_unused__again [R: V, A: V, B: V, P: Fn(R) -> R + V, K: Fn(A) -> R + V] (a: A, p: P, k: K, z_k: K) -> (R, R) ; { let m0 = ContT::<R, R, A>::call_cc::<B, _>(move |_| { let (a, p) = (a.clone(), p.clone()); ContT::new(move |k: Arc<dyn Fn(A) -> R + Send + Sync>| p(k(a.clone()))) }); let y1 = m0.run(k.clone()); let y2 = m0.run(z_k); (y1, y2) } ; { let y1 = { let a = a.clone(); let p = p.clone(); let k = k.clone(); p(k(a)) }; let y2 = { let k = z_k; p(k(a)) }; (y1, y2) } }
law!{ call_cc_escape__again [R: V, A: V, P: Fn(R) -> R + V, K: Fn(A) -> R + V] (a: A, b: A, p: P, k: K, z_k: K) -> (R, R) ; { let m0 = ContT::<R, R, A>::call_cc::<A, _>(move |esc| { let (b, p) = (b.clone(), p.clone()); esc(a.clone()).bind(move |_: A| { let (b, p) = (b.clone(), p.clone()); ContT::new(move |k: Arc<dyn Fn(A) -> R + Send + Sync>| p(k(b.clone()))) }) }); let y1 = m0.run(k.clone()); let y2 = m0.run(z_k); (y1, y2) } ; { let y1 = { let a = a.clone(); let b = b.clone(); let p = p.clone(); let k = k.clone(); k(a) }; let y2 = { let k = z_k; k(a) }; (y1, y2) } }
law!{ t_run__again [R: V, M: V, A: V, F: Fn(Arc<dyn Fn(A) -> M + Send + Sync>) -> M + V, K: Fn(A) -> M + V] (f: F, k: K, z_k: K) -> (M, M) ; { let m0 = ContT::<R, M, A>::new(f); let y1 = m0.run(k.clone()); let y2 = m0.run(z_k); (y1, y2) } ; { let y1 = { let f = f.clone(); let k = k.clone(); f(Arc::new(k)) }; let y2 = { let k = z_k; f(Arc::new(k)) }; (y1, y2) } }
law!{ t_pure__again [R: V, M: V, A: V, K: Fn(A) -> M + V] (a: A, k: K, z_k: K) -> (M, M) ; { let m0 = ContT::<R, M, A>::pure(a); let y1 = m0.run(k.clone()); let y2 = m0.run(z_k); (y1, y2) } ; { let y1 = { let a = a.clone(); let k = k.clone(); k(a) }; let y2 = { let k = z_k; k(a) }; (y1, y2) } }
law!{ t_fmap__again [R: V, M: V, A: V, B: V, P: Fn(M) -> M + V, F: Fn(A) -> B + V, K: Fn(B) -> M + V] (a: A, p: P, f: F, k: K, z_k: K) -> (M, M) ; { let m0 = ContT::<R, M, A>::new(move |k| p(k(a.clone()))).fmap(f); let y1 = m0.run(k.clone()); let y2 = m0.run(z_k); (y1, y2) } ; { let y1 = { let a = a.clone(); let p = p.clone(); let f = f.clone(); let k = k.clone(); p(k(f(a))) }; let y2 = { let k = z_k; p(k(f(a))) }; (y1, y2) } }
law!{ t_bind__again [R: V, M: V, A: V, B: V, P: Fn(M) -> M + V, Q: Fn(M) -> M + V, F: Fn(A) -> B + V, K: Fn(B) -> M + V] (a: A, p: P, q: Q, f: F, k: K, z_k: K) -> (M, M) ; { let m0 = ContT::<R, M, A>::new(move |k| p(k(a.clone()))).bind(move |x| { let (y, q) = (f(x), q.clone()); ContT::new(move |k: Arc<dyn Fn(B) -> M + Send + Sync>| q(k(y.clone()))) }); let y1 = m0.run(k.clone()); let y2 = m0.run(z_k); (y1, y2) } ; { let y1 = { let a = a.clone(); let p = p.clone(); let q = q.clone(); let f = f.clone(); let k = k.clone(); p({ let y = f(a); q(k(y)) }) }; let y2 = { let k = z_k; p({ let y = f(a); q(k(y)) }) }; (y1, y2) } }
law!{ t_to_cont__again [R: V, A: V, P: Fn(R) -> R + V, K: Fn(A) -> R + V] (a: A, p: P, k: K, z_k: K) -> (R, R) ; { let m0 = ContT::<R, Id<R>, A>::new(move |k: Arc<dyn Fn(A) -> Id<R> + Send + Sync>| Id::new(p(k(a.clone()).into_inner()))).to_cont(); let y1 = m0.run(k.clone()); let y2 = m0.run(z_k); (y1, y2) } ; { let y1 = { let a = a.clone(); let p = p.clone(); let k = k.clone(); p(k(a)) }; let y2 = { let k = z_k; p(k(a)) }; (y1, y2) } }
law!{ from_t__again [R: V, A: V, P: Fn(R) -> R + V, K: Fn(A) -> R + V] (a: A, p: P, k: K, z_k: K) -> (R, R) ; { let m0 = Cont::from(ContT::<R, Id<R>, A>::new(move |k: Arc<dyn Fn(A) -> Id<R> + Send + Sync>| Id::new(p(k(a.clone()).into_inner())))); let y1 = m0.run(k.clone()); let y2 = m0.run(z_k); (y1, y2) } ; { let y1 = { let a = a.clone(); let p = p.clone(); let k = k.clone(); p(k(a)) }; let y2 = { let k = z_k; p(k(a)) }; (y1, y2) } }
law!{ call_cc_method_return__again [R: V, A: V, B: V + Copy, P: Fn(R) -> R + V + Copy, K: Fn(B) -> R + V] (x: A, b: B, p: P, k: K, z_k: K) -> (R, R) ; { let m0 = Cont::<R, A>::pure(x).call_cc(move |_| Cont::new(move |k| p(k(b)))); let y1 = m0.run(k.clone()); let y2 = m0.run(z_k); (y1, y2) } ; { let y1 = { let x = x.clone(); let b = b.clone(); let p = p.clone(); let k = k.clone(); p(k(b)) }; let y2 = { let k = z_k; p(k(b)) }; (y1, y2) } }
law!{ call_cc_method_escape__again [R: V, A: V, B: V + Copy, P: Fn(R) -> R + V + Copy, K: Fn(B) -> R + V] (x: A, a: B, b: B, p: P, k: K, z_k: K) -> (R, R) ; { let m0 = Cont::<R, A>::pure(x).call_cc(move |esc: Box<dyn Fn(B) -> Cont<R, A> + Send + Sync>| esc(a).bind(move |_: A| Cont::new(move |k| p(k(b))))); let y1 = m0.run(k.clone()); let y2 = m0.run(z_k); (y1, y2) } ; { let y1 = { let x = x.clone(); let a = a.clone(); let b = b.clone(); let p = p.clone(); let k = k.clone(); k(a) }; let y2 = { let k = z_k; k(a) }; (y1, y2) } }
law!{ call_cc_method_escape_late__again [R: V, A: V, B: V + Copy, P: Fn(R) -> R + V + Copy, Q: Fn(R) -> R + V + Copy, K: Fn(B) -> R + V] (x: A, a: B, b: B, p: P, q: Q, k: K, z_k: K) -> (R, R) ; { let m0 = Cont::<R, A>::pure(x).call_cc(move |esc: Box<dyn Fn(B) -> Cont<R, A> + Send + Sync>| { let c = esc(a); Cont::<R, B>::new(move |k| q(k(b))).bind(move |_| c.clone().bind(move |_: A| Cont::new(move |k| p(k(b))))) }); let y1 = m0.run(k.clone()); let y2 = m0.run(z_k); (y1, y2) } ; { let y1 = { let x = x.clone(); let a = a.clone(); let b = b.clone(); let p = p.clone(); let q = q.clone(); let k = k.clone(); q(k(a)) }; let y2 = { let k = z_k; q(k(a)) }; (y1, y2) } }
law!{ t_clone__again [R: V, M: V, A: V, F: Fn(Arc<dyn Fn(A) -> M + Send + Sync>) -> M + V, K: Fn(A) -> M + V] (f: F, k: K, z_k: K) -> (M, M) ; { let m0 = ContT::<R, M, A>::new(f).clone(); let y1 = m0.run(k.clone()); let y2 = m0.run(z_k); (y1, y2) } ; { let y1 = { let f = f.clone(); let k = k.clone(); f(Arc::new(k)) }; let y2 = { let k = z_k; f(Arc::new(k)) }; (y1, y2) } }
