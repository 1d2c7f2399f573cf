//! Copies and defaults: a clone holds and does what the original does; a default is the documented start value.
use super::refs::*;
use std::future::Future;
use std::marker::PhantomData;
use crate::datatypes::maybe::MaybeError;
use crate::datatypes::io::{IO, IOError};
use crate::datatypes::async_monad::AsyncM;
use crate::datatypes::state::State;
use crate::datatypes::reader::Reader;
use crate::datatypes::cont::Cont;
use crate::datatypes::writer::Writer;
use crate::datatypes::lens::Lens;
use crate::datatypes::prism::Prism;
use crate::datatypes::iso_lens::IsoLens;
use crate::datatypes::iso_prism::IsoPrism;
use crate::datatypes::wrapper::thunk::Thunk;
use crate::datatypes::wrapper::memoizer::Memoizer;
use crate::transformers::{StateT, ReaderT, ContT};
use crate::traits::evaluate::Evaluate;
use crate::error::types::{ComposableError, ErrorContext};
use crate::utils::error_utils::{error_with_context, AppError};
use crate::utils::transform_utils::Pipeline;
use crate::pvec::{PersistentVector, PVecError};
pub fn cv<T: Clone>(c: &Choice<T>) -> Vec<T> { let mut v = Vec::new(); for x in c.iter() { v.push(x.clone()); } v }
pub fn le<L, R>(e: Either<L, R>) -> Result<R, L> { match e { Either::Left(l) => Err(l), Either::Right(r) => Ok(r) } }
pub fn lm<T>(m: Maybe<T>) -> Option<T> { match m { Maybe::Just(x) => Some(x), Maybe::Nothing => None } }
pub fn lv<E, A>(v: Validated<E, A>) -> Result<A, Vec<E>> { match v { Validated::Valid(a) => Ok(a), Validated::Invalid(es) => Err(es.into_vec()) } }
pub fn ce<E: Clone>(e: ComposableError<E>) -> (Vec<String>, Option<u32>, E) { (e.context(), e.error_code(), e.core_error().clone()) }
macro_rules! copies { ($m:ident, [$($g:tt)*], $t:ty, $o:ty, $f:expr) => { pub mod $m { use super::*;
law!{ clone [$($g)*] (m: $t) -> $o ; ($f)(m.clone()) ; ($f)(m) }
law!{ clone_keeps [$($g)*] (m: $t) -> $o ; { let c = m.clone(); drop(c); ($f)(m) } ; ($f)(m) }
law!{ clone_from [$($g)*] (m: $t, n: $t) -> $o ; { let mut n = n; n.clone_from(&m); ($f)(n) } ; ($f)(m) }
law!{ to_owned [$($g)*] (m: $t) -> $o ; ($f)(<$t as ToOwned>::to_owned(&m)) ; ($f)(m) }
} } }
copies!(either, [L: Clone, R: Clone], Either<L, R>, Result<R, L>, |m: Either<L, R>| le(m));
copies!(maybe, [A: Clone], Maybe<A>, Option<A>, |m: Maybe<A>| lm(m));
copies!(validated, [E: Clone, A: Clone], Validated<E, A>, Result<A, Vec<E>>, |m: Validated<E, A>| lv(m));
copies!(choice, [A: Clone], Choice<A>, Vec<A>, |m: Choice<A>| cv(&m));
copies!(id, [A: Clone], Id<A>, A, |m: Id<A>| m.into_inner());
copies!(first, [A: Clone], First<A>, Option<A>, |m: First<A>| m.0);
copies!(last, [A: Clone], Last<A>, Option<A>, |m: Last<A>| m.0);
copies!(min, [A: Clone], Min<A>, A, |m: Min<A>| m.0);
copies!(max, [A: Clone], Max<A>, A, |m: Max<A>| m.0);
copies!(sum, [A: Clone], Sum<A>, A, |m: Sum<A>| m.0);
copies!(product, [A: Clone], Product<A>, A, |m: Product<A>| m.0);
copies!(writer, [W: Monoid + Clone, A: Clone], Writer<W, A>, (W, A), |m: Writer<W, A>| m.run());
copies!(error, [E: Clone], ComposableError<E>, (Vec<String>, Option<u32>, E), |m: ComposableError<E>| ce(m));
copies!(context, [], ErrorContext, String, |m: ErrorContext| m.message().to_string());
copies!(app_error, [M: Clone, C: Clone], AppError<M, C>, (M, Option<C>), |m: AppError<M, C>| (m.message().clone(), m.context().cloned()));
copies!(io_error, [], IOError, Option<String>, |m: IOError| match m { IOError::ValueNotSet => None, IOError::Other(s) => Some(s) });
copies!(pvec_error, [], PVecError, (bool, usize, usize), |m: PVecError| match m { PVecError::IndexOutOfBounds { index, len } => (true, index, len), PVecError::InvalidRange { start, end } => (false, start, end) });
copies!(pvec, [A: Clone], PersistentVector<A>, (Vec<A>, usize), |m: PersistentVector<A>| (pseq(&m), m.len()));
copies!(pipeline, [A: Clone], Pipeline<A>, A, |m: Pipeline<A>| m.extract());
copies!(predicate, [], Predicate<String>, (bool, bool), |m: Predicate<String>| (m.contains(&String::from("x")), m.contains(&String::new())));
pub mod computations { use super::*;
law!{ state [S: V, A: V, F: Fn(S) -> (A, S) + V] (f: F, s: S) -> ((A, S), (A, S)) ; { let m = State::new(f); let c = m.clone(); let x = c.run_state(s.clone()); (x, m.run_state(s)) } ; { let x = f(s.clone()); (x, f(s)) } }
law!{ state_t [S: V, M: V, A: V, F: Fn(S) -> M + V] (f: F, s: S) -> (M, M) ; { let m = StateT::<S, M, A>::new(f); let c = m.clone(); let x = c.run_state(s.clone()); (x, m.run_state(s)) } ; { let x = f(s.clone()); (x, f(s)) } }
law!{ state_t_lift [S: V, M: V, A: V] (n: M, s: S) -> M ; StateT::<S, M, A>::LiftM(n).clone().run_state(s) ; n }
law!{ reader [E: V, A: V, F: Fn(E) -> A + V] (f: F, e: E) -> (A, A) ; { let m = Reader::new(f); let c = m.clone(); let x = c.run_reader(e.clone()); (x, m.run_reader(e)) } ; { let x = f(e.clone()); (x, f(e)) } }
law!{ reader_t [E: V, M: V, A: V, F: Fn(E) -> M + V] (f: F, e: E) -> (M, M) ; { let m = ReaderT::<E, M, A>::new(f); let c = m.clone(); let x = c.run_reader(e.clone()); (x, m.run_reader(e)) } ; { let x = f(e.clone()); (x, f(e)) } }
law!{ cont [R: V, A: V, P: Fn(R) -> R + V, K: Fn(A) -> R + V] (a: A, p: P, k: K) -> (R, R) ; { let m = Cont::new(move |k: std::sync::Arc<dyn Fn(A) -> R + Send + Sync>| p(k(a.clone()))); let c = m.clone(); let x = c.run(k.clone()); (x, m.run(k)) } ; { let x = p(k(a.clone())); (x, p(k(a))) } }
law!{ io [A: V, F: Fn() -> A + V] (f: F) -> (A, A) ; { let m = IO::new(f); let c = m.clone(); let x = c.run(); (x, m.run()) } ; { let x = f(); (x, f()) } }
law!{ io_pure [A: V] (a: A) -> (A, A) ; { let m = IO::pure(a); let c = m.clone(); let x = c.run(); (x, m.run()) } ; (a.clone(), a) }
law!{ async_effect [A: V, T: Future<Output = A> + Send + 'static, F: Fn() -> T + V] (f: F) -> impl Future<Output = (A, A)> ; async move { let m = AsyncM::new(f); let c = m.clone(); let x = c.try_get().await; (x, m.try_get().await) } ; async move { let x = f().await; (x, f().await) } }
law!{ async_pure [A: V] (a: A) -> impl Future<Output = (A, A)> ; async move { let m = AsyncM::pure(a); let c = m.clone(); let x = c.try_get().await; (x, m.try_get().await) } ; async move { (a.clone(), a) } }
law!{ thunk [A: Clone, F: Fn() -> A + Clone] (f: F) -> (A, A) ; { let m = Thunk::new(f); let c = m.clone(); let x = c.evaluate(); (x, m.evaluate()) } ; { let x = f(); (x, f()) } }
law!{ predicate [A: Clone + 'static, F: Fn(&A) -> bool + 'static] (f: F, a: A) -> (bool, bool) ; { let m = Predicate::new(f); let c = m.clone(); let x = c.contains(&a); (x, m.contains(&a)) } ; { let x = f(&a); (x, f(&a)) } }
law!{ lens [S: V, A: V, G: Fn(&S) -> A + Clone, H: Fn(S, A) -> S + Clone] (g: G, h: H, s: S, a: A) -> (A, S) ; { let m = Lens::new(g, h).clone(); (m.get(&s), m.set_always(s, a)) } ; (g(&s), h(s, a)) }
law!{ prism [S: V, A: V, P: Fn(&S) -> Option<A> + Clone, R: Fn(&A) -> S + Clone] (p: P, r: R, s: S, a: A) -> (Option<A>, S) ; { let m = Prism::new(p, r).clone(); (m.preview(&s), m.review(&a)) } ; (p(&s), r(&a)) }
law!{ iso_lens [S: V, A: V, F: Fn(&S) -> A + Clone, G: Fn(&A) -> S + Clone] (f: F, g: G, s: S, a: A) -> (A, S) ; { let m = IsoLens::new(fi(f, g)).clone(); (m.get(&s), m.set(&a)) } ; (f(&s), g(&a)) }
law!{ state_often [S: V, A: V, F: Fn(S) -> (A, S) + V] (f: F, s: S) -> ((A, S), (A, S), (A, S), (A, S)) ; { let m = State::new(f); let c = m.clone(); let x = c.run_state(s.clone()); let y = c.run_state(s.clone()); let d = c.clone(); let z = d.run_state(s.clone()); (x, y, z, m.run_state(s.clone())) } ; { let x = f(s.clone()); let y = f(s.clone()); let z = f(s.clone()); (x, y, z, f(s.clone())) } }
law!{ state_t_often [S: V, M: V, A: V, F: Fn(S) -> M + V] (f: F, s: S) -> (M, M, M, M) ; { let m = StateT::<S, M, A>::new(f); let c = m.clone(); let x = c.run_state(s.clone()); let y = c.run_state(s.clone()); let d = c.clone(); let z = d.run_state(s.clone()); (x, y, z, m.run_state(s.clone())) } ; { let x = f(s.clone()); let y = f(s.clone()); let z = f(s.clone()); (x, y, z, f(s.clone())) } }
law!{ reader_often [E: V, A: V, F: Fn(E) -> A + V] (f: F, e: E) -> (A, A, A, A) ; { let m = Reader::new(f); let c = m.clone(); let x = c.run_reader(e.clone()); let y = c.run_reader(e.clone()); let d = c.clone(); let z = d.run_reader(e.clone()); (x, y, z, m.run_reader(e.clone())) } ; { let x = f(e.clone()); let y = f(e.clone()); let z = f(e.clone()); (x, y, z, f(e.clone())) } }
law!{ reader_t_often [E: V, M: V, A: V, F: Fn(E) -> M + V] (f: F, e: E) -> (M, M, M, M) ; { let m = ReaderT::<E, M, A>::new(f); let c = m.clone(); let x = c.run_reader(e.clone()); let y = c.run_reader(e.clone()); let d = c.clone(); let z = d.run_reader(e.clone()); (x, y, z, m.run_reader(e.clone())) } ; { let x = f(e.clone()); let y = f(e.clone()); let z = f(e.clone()); (x, y, z, f(e.clone())) } }
law!{ cont_often [R: V, A: V, P: Fn(R) -> R + V, K: Fn(A) -> R + V] (a: A, p: P, k: K) -> (R, R, R, R) ; { let m = { let a = a.clone(); let p = p.clone(); Cont::new(move |k: std::sync::Arc<dyn Fn(A) -> R + Send + Sync>| p(k(a.clone()))) }; let c = m.clone(); let x = c.run(k.clone()); let y = c.run(k.clone()); let d = c.clone(); let z = d.run(k.clone()); (x, y, z, m.run(k.clone())) } ; { let x = p(k(a.clone())); let y = p(k(a.clone())); let z = p(k(a.clone())); (x, y, z, p(k(a.clone()))) } }
law!{ io_often [A: V, F: Fn() -> A + V] (f: F) -> (A, A, A, A) ; { let m = IO::new(f); let c = m.clone(); let x = c.run(); let y = c.run(); let d = c.clone(); let z = d.run(); (x, y, z, m.run()) } ; { let x = f(); let y = f(); let z = f(); (x, y, z, f()) } }
law!{ thunk_often [A: Clone, F: Fn() -> A + Clone] (f: F) -> (A, A, A, A) ; { let m = Thunk::new(f); let c = m.clone(); let x = c.evaluate(); let y = c.evaluate(); let d = c.clone(); let z = d.evaluate(); (x, y, z, m.evaluate()) } ; { let x = f(); let y = f(); let z = f(); (x, y, z, f()) } }
law!{ predicate_often [A: Clone + 'static, F: Fn(&A) -> bool + 'static] (f: F, a: A) -> (bool, bool, bool, bool) ; { let m = Predicate::new(f); let c = m.clone(); let x = c.contains(&a); let y = c.contains(&a); let d = c.clone(); let z = d.contains(&a); (x, y, z, m.contains(&a)) } ; { let x = f(&a); let y = f(&a); let z = f(&a); (x, y, z, f(&a)) } }
law!{ async_often [A: V, T: Future<Output = A> + Send + 'static, F: Fn() -> T + V] (f: F) -> impl Future<Output = (A, A, A, A)> ; async move { let m = AsyncM::new(f); let c = m.clone(); let x = c.try_get().await; let y = c.try_get().await; let d = c.clone(); let z = d.try_get().await; (x, y, z, m.try_get().await) } ; async move { let x = f().await; let y = f().await; let z = f().await; (x, y, z, f().await) } }
}
pub mod defaults { use super::*;
law!{ id [A: Default] () -> A ; Id::<A>::default().into_inner() ; A::default() }
law!{ maybe [A] () -> Option<A> ; lm(Maybe::<A>::default()) ; None }
law!{ choice [A: Clone + Default] () -> Vec<A> ; cv(&Choice::<A>::default()) ; Vec::new() }
law!{ pvec [A: Clone] () -> (Vec<A>, usize) ; { let v = PersistentVector::<A>::default(); (pseq(&v), v.len()) } ; (Vec::new(), 0) }
law!{ memoizer [K: V + std::hash::Hash + Eq, A: V, F: Fn(&K) -> A] (k: K, f: F) -> A ; Memoizer::<K, A>::default().get_or_compute(k, f) ; f(&k) }
}
