use super::refs::*;
use crate::datatypes::io::{IO, IOError};
use crate::datatypes::async_monad::AsyncM;
use crate::error::types::ComposableError;
use crate::traits::evaluate::Evaluate;
use std::future::Future;
use std::panic::{catch_unwind, AssertUnwindSafe};
/// A non-trivial action: either a stored value or an effect.
pub fn act<A: V, F: Fn() -> A + V>(p: bool, a: A, f: F) -> IO<A> { if p { IO::pure(a) } else { IO::new(f) } }
pub fn acted<A: V, F: Fn() -> A + V>(p: bool, a: A, f: &F) -> A { if p { a } else { f() } }
law!{ new_defers [A: V, F: Fn() -> A + V] (f: F) -> bool ; IO::new(f).is_effect() ; true }
law!{ new_run [A: V, F: Fn() -> A + V] (f: F) -> A ; IO::new(f).run() ; f() }
law!{ new_run_twice [A: V, F: Fn() -> A + V] (f: F) -> (A, A) ; { let m = IO::new(f); let a = m.run(); let b = m.run(); (a, b) } ; { let a = f(); let b = f(); (a, b) } }
law!{ pure_run [A: V] (a: A) -> A ; IO::pure(a).run() ; a }
law!{ pure_is_pure [A: V] (a: A) -> (bool, bool) ; { let m = IO::pure(a); (m.is_pure(), m.is_effect()) } ; (true, false) }
law!{ clone_run [A: V, F: Fn() -> A + V] (p: bool, a: A, f: F) -> A ; act(p, a, f).clone().run() ; acted(p, a, &f) }
law!{ clone_defers [A: V, F: Fn() -> A + V] (p: bool, a: A, f: F) -> bool ; act(p, a, f).clone().is_pure() ; p }
law!{ evaluate [A: V, F: Fn() -> A + V] (p: bool, a: A, f: F) -> A ; act(p, a, f).evaluate() ; acted(p, a, &f) }
law!{ fmap_defers [A: V, B: V, F: Fn() -> A + V, G: Fn(A) -> B + V] (f: F, g: G) -> bool ; IO::new(f).fmap(g).is_effect() ; true }
law!{ fmap_run [A: V, B: V, F: Fn() -> A + V, G: Fn(A) -> B + V] (p: bool, a: A, f: F, g: G) -> B ; act(p, a, f).fmap(g).run() ; g(acted(p, a, &f)) }
law!{ fmap_run_twice [A: V, B: V, F: Fn() -> A + V, G: Fn(A) -> B + V] (f: F, g: G) -> (B, B) ; { let m = IO::new(f).fmap(g); let x = m.run(); let y = m.run(); (x, y) } ; { let x = g(f()); let y = g(f()); (x, y) } }
law!{ bind_defers [A: V, B: V, F: Fn() -> A + V, G: Fn(A) -> IO<B> + V] (f: F, g: G) -> bool ; IO::new(f).bind(g).is_effect() ; true }
law!{ bind_run [A: V, B: V, F: Fn() -> A + V, G: Fn(A) -> B + V, H: Fn(A) -> B + V] (p: bool, q: bool, a: A, f: F, g: G, h: H) -> B ; act(p, a, f).bind(move |x: A| if q { IO::pure(g(x)) } else { let h = h.clone(); IO::new(move || h(x.clone())) }).run() ; { let x = acted(p, a, &f); if q { g(x) } else { h(x) } } }
law!{ bind_run_opaque [A: V, B: V, F: Fn() -> A + V, G: Fn(A) -> IO<B> + V] (p: bool, a: A, f: F, g: G) -> B ; act(p, a, f).bind(g).run() ; g(acted(p, a, &f)).run() }
law!{ bind_run_twice [A: V, B: V, F: Fn() -> A + V, G: Fn(A) -> IO<B> + V] (f: F, g: G) -> (B, B) ; { let m = IO::new(f).bind(g); let x = m.run(); let y = m.run(); (x, y) } ; { let x = g(f()).run(); let y = g(f()).run(); (x, y) } }
law!{ left_identity [A: V, B: V, G: Fn(A) -> IO<B> + V] (a: A, g: G) -> B ; IO::pure(a.clone()).bind(g.clone()).run() ; g(a).run() }
law!{ right_identity [A: V, F: Fn() -> A + V] (p: bool, a: A, f: F) -> A ; act(p, a, f).bind(|x| IO::pure(x)).run() ; acted(p, a, &f) }
law!{ associativity [A: V, B: V, C: V, F: Fn() -> A + V, G: Fn(A) -> IO<B> + V, H: Fn(B) -> IO<C> + V] (p: bool, a: A, f: F, g: G, h: H) -> C ; act(p, a, f).bind(g).bind(h).run() ; act(p, a, f).bind(move |x| { let h = h.clone(); g(x).bind(h) }).run() }
law!{ apply_run_effects [A: V, B: V, K: Fn(A) -> B + V, F: Fn() -> A + V, G: Fn() -> K + V] (f: F, g: G) -> B ; IO::new(f).apply::<B, K>(IO::new(g)).run() ; { let k = g(); k(f()) } }
law!{ apply_defers [A: V, B: V, K: Fn(A) -> B + V, F: Fn() -> A + V, G: Fn() -> K + V] (f: F, g: G) -> bool ; IO::new(f).apply::<B, K>(IO::new(g)).is_effect() ; true }
law!{ apply_pure_effect [A: V, B: V, K: Fn(A) -> B + V, G: Fn() -> K + V] (a: A, g: G) -> B ; IO::pure(a).apply::<B, K>(IO::new(g)).run() ; g()(a) }
law!{ apply_effect_pure [A: V, B: V, K: Fn(A) -> B + V, F: Fn() -> A + V] (f: F, k: K) -> B ; IO::new(f).apply::<B, K>(IO::pure(k)).run() ; k(f()) }
law!{ apply_pure_pure [A: V, B: V, K: Fn(A) -> B + V] (a: A, k: K) -> B ; IO::pure(a).apply::<B, K>(IO::pure(k)).run() ; k(a) }
law!{ apply_pure_effect_defers [A: V, B: V, K: Fn(A) -> B + V, G: Fn() -> K + V] (a: A, g: G) -> bool ; IO::pure(a).apply::<B, K>(IO::new(g)).is_effect() ; true }
law!{ apply_effect_pure_defers [A: V, B: V, K: Fn(A) -> B + V, F: Fn() -> A + V] (f: F, k: K) -> bool ; IO::new(f).apply::<B, K>(IO::pure(k)).is_effect() ; true }
law!{ combine_run [A: V, B: V, F: Fn() -> A + V, G: Fn() -> B + V] (p: bool, q: bool, a: A, b: B, f: F, g: G) -> (A, B) ; IO::combine(&act(p, a, f), &act(q, b, g)).run() ; { let x = acted(p, a, &f); let y = acted(q, b, &g); (x, y) } }
law!{ combine_defers [A: V, B: V, F: Fn() -> A + V, G: Fn() -> B + V] (p: bool, q: bool, a: A, b: B, f: F, g: G) -> () ; { let _m = IO::combine(&act(p, a, f), &act(q, b, g)); } ; () }
law!{ sequence_run [A: V, F: Fn(u32) -> A + V] (v: Vec<u32>, f: F) -> Vec<A> ; IO::sequence(v.into_iter().map(|i| { let f = f.clone(); IO::new(move || f(i)) }).collect::<Vec<_>>()).run() ; { let mut r = Vec::new(); for i in v { r.push(f(i)); } r } }
law!{ sequence_any [A: V] (v: Vec<IO<A>>) -> Vec<A> ; IO::sequence(v.clone()).run() ; { let mut r = Vec::new(); for m in v.iter() { r.push(m.run()); } r } }
law!{ sequence_defers [A: V] (v: Vec<IO<A>>) -> bool ; IO::sequence(v).is_effect() ; true }
law!{ when_run [A: V, P: Fn() -> bool + V, F: Fn() -> A + V, D: Fn() -> A + V] (p: P, f: F, d: D) -> A ; IO::when(p, f, d).run() ; if p() { f() } else { d() } }
law!{ when_defers [A: V, P: Fn() -> bool + V, F: Fn() -> A + V, D: Fn() -> A + V] (p: P, f: F, d: D) -> bool ; IO::when(p, f, d).is_effect() ; true }
law!{ try_get [A: V, F: Fn() -> A + V] (f: F) -> Option<A> ; IO::new(f).try_get().ok() ; catch_unwind(AssertUnwindSafe(|| f())).ok() }
law!{ try_get_pure [A: V] (a: A) -> Option<A> ; IO::pure(a).try_get().ok() ; catch_unwind(AssertUnwindSafe(|| a.clone())).ok() }
law!{ try_get_composable [A: V, F: Fn() -> A + V] (f: F) -> Option<A> ; IO::new(f).try_get_composable().ok() ; catch_unwind(AssertUnwindSafe(|| f())).ok() }
law!{ try_get_with_context [A: V, F: Fn() -> A + V] (f: F, c: String) -> Option<A> ; IO::new(f).try_get_with_context(c).ok() ; catch_unwind(AssertUnwindSafe(|| f())).ok() }
law!{ try_get_context [A: V, F: Fn() -> A + V] (f: F, c: String) -> Option<Vec<String>> ; match IO::new(f).try_get_with_context(c) { Ok(_) => None, Err(e) => Some(e.context()) } ; match catch_unwind(AssertUnwindSafe(|| f())) { Ok(_) => None, Err(_) => Some(one(c)) } }
law!{ try_get_composable_context [A: V, F: Fn() -> A + V] (f: F, c: String) -> Option<Vec<String>> ; match IO::new(f).try_get_composable_with_context(c) { Ok(_) => None, Err(e) => Some(e.context()) } ; match catch_unwind(AssertUnwindSafe(|| f())) { Ok(_) => None, Err(_) => Some(one(c)) } }
law!{ recover_run [A: V, F: Fn() -> A + V, G: Fn() -> A + V] (f: F, g: G) -> A ; IO::new(f).recover(move |_| { let g = g.clone(); IO::new(g) }).run() ; match catch_unwind(AssertUnwindSafe(|| f())) { Ok(x) => x, Err(_) => g() } }
law!{ recover_defers [A: V, F: Fn() -> A + V, G: Fn(Box<ComposableError<IOError>>) -> IO<A> + V] (f: F, g: G) -> bool ; IO::new(f).recover(g).is_effect() ; true }
law!{ recover_with_run [A: V, F: Fn() -> A + V] (f: F, d: A) -> A ; IO::new(f).recover_with(d).run() ; match catch_unwind(AssertUnwindSafe(|| f())) { Ok(x) => x, Err(_) => d } }
law!{ recover_with_defers [A: V, F: Fn() -> A + V] (f: F, d: A) -> bool ; IO::new(f).recover_with(d).is_effect() ; true }
law!{ sequence_composable_ok [A: V + Debug, F: Fn(u32) -> A + V] (v: Vec<u32>, f: F) -> Option<Vec<A>> ; IO::sequence_composable(v.into_iter().map(|i| { let f = f.clone(); IO::new(move || f(i)) }).collect::<Vec<_>>()).ok() ; { let mut r = Vec::new(); let mut bad = false; for i in v { match catch_unwind(AssertUnwindSafe(|| f(i))) { Ok(x) => r.push(x), Err(_) => bad = true } } if bad { None } else { Some(r) } } }
law!{ run_async [A: V, F: Fn() -> A + V] (p: bool, a: A, f: F) -> impl Future<Output = A> ; async move { act(p, a, f).run_async().await } ; async move { acted(p, a, &f) } }
law!{ a_pure [A: V] (a: A) -> impl Future<Output = A> ; async move { AsyncM::pure(a).try_get().await } ; async move { a } }
law!{ a_new_defers [A: V, T: Future<Output = A> + Send + 'static, F: Fn() -> T + V] (f: F) -> () ; { let _m = AsyncM::new(f); } ; () }
law!{ a_new_run [A: V, T: Future<Output = A> + Send + 'static, F: Fn() -> T + V] (f: F) -> impl Future<Output = A> ; async move { AsyncM::new(f).try_get().await } ; async move { f().await } }
law!{ a_run_twice [A: V, T: Future<Output = A> + Send + 'static, F: Fn() -> T + V] (f: F) -> impl Future<Output = (A, A)> ; async move { let m = AsyncM::new(f); let a = m.try_get().await; let b = m.try_get().await; (a, b) } ; async move { let a = f().await; let b = f().await; (a, b) } }
law!{ a_fmap_defers [A: V, B: V, T: Future<Output = A> + Send + 'static, F: Fn() -> T + V, U: Future<Output = B> + Send + 'static, G: Fn(A) -> U + V] (f: F, g: G) -> () ; { let _m = AsyncM::new(f).fmap(g); } ; () }
law!{ a_fmap_run [A: V, B: V, T: Future<Output = A> + Send + 'static, F: Fn() -> T + V, U: Future<Output = B> + Send + 'static, G: Fn(A) -> U + V] (f: F, g: G) -> impl Future<Output = B> ; async move { AsyncM::new(f).fmap(g).try_get().await } ; async move { let a = f().await; g(a).await } }
law!{ a_fmap_twice [A: V, B: V, T: Future<Output = A> + Send + 'static, F: Fn() -> T + V, U: Future<Output = B> + Send + 'static, G: Fn(A) -> U + V] (f: F, g: G) -> impl Future<Output = (B, B)> ; async move { let m = AsyncM::new(f).fmap(g); let x = m.try_get().await; let y = m.try_get().await; (x, y) } ; async move { let a = f().await; let x = g(a).await; let b = f().await; let y = g(b).await; (x, y) } }
law!{ a_fmap_pure [A: V, B: V, U: Future<Output = B> + Send + 'static, G: Fn(A) -> U + V] (a: A, g: G) -> impl Future<Output = B> ; async move { AsyncM::pure(a).fmap(g).try_get().await } ; async move { g(a).await } }
law!{ a_fmap_owned_defers [A: V, B: V, T: Future<Output = A> + Send + 'static, F: Fn() -> T + V, U: Future<Output = B> + Send + 'static, G: Fn(A) -> U + V] (f: F, g: G) -> () ; { let _m = AsyncM::new(f).fmap_owned(g); } ; () }
law!{ a_fmap_owned_run [A: V, B: V, T: Future<Output = A> + Send + 'static, F: Fn() -> T + V, U: Future<Output = B> + Send + 'static, G: Fn(A) -> U + V] (f: F, g: G) -> impl Future<Output = B> ; async move { AsyncM::new(f).fmap_owned(g).try_get().await } ; async move { let a = f().await; g(a).await } }
law!{ a_fmap_owned_twice [A: V, B: V, T: Future<Output = A> + Send + 'static, F: Fn() -> T + V, U: Future<Output = B> + Send + 'static, G: Fn(A) -> U + V] (f: F, g: G) -> impl Future<Output = (B, B)> ; async move { let m = AsyncM::new(f).fmap_owned(g); let x = m.try_get().await; let y = m.try_get().await; (x, y) } ; async move { let a = f().await; let x = g(a).await; let b = f().await; let y = g(b).await; (x, y) } }
law!{ a_fmap_owned_pure [A: V, B: V, U: Future<Output = B> + Send + 'static, G: Fn(A) -> U + V] (a: A, g: G) -> impl Future<Output = B> ; async move { AsyncM::pure(a).fmap_owned(g).try_get().await } ; async move { g(a).await } }
law!{ a_bind_defers [A: V, B: V, T: Future<Output = A> + Send + 'static, F: Fn() -> T + V, U: Future<Output = AsyncM<B>> + Send + 'static, G: Fn(A) -> U + V] (f: F, g: G) -> () ; { let _m = AsyncM::new(f).bind(g); } ; () }
law!{ a_bind_run [A: V, B: V, T: Future<Output = A> + Send + 'static, F: Fn() -> T + V, U: Future<Output = B> + Send + 'static, G: Fn(A) -> U + V] (f: F, g: G) -> impl Future<Output = B> ; async move { AsyncM::new(f).bind(move |a: A| { let g = g.clone(); async move { AsyncM::new(move || g(a.clone())) } }).try_get().await } ; async move { let a = f().await; g(a).await } }
law!{ a_bind_run_pure [A: V, B: V, T: Future<Output = A> + Send + 'static, F: Fn() -> T + V, U: Future<Output = B> + Send + 'static, G: Fn(A) -> U + V] (f: F, g: G) -> impl Future<Output = B> ; async move { AsyncM::new(f).bind(move |a: A| { let t = g(a); async move { AsyncM::pure(t.await) } }).try_get().await } ; async move { let a = f().await; g(a).await } }
law!{ a_bind_pure [A: V, B: V, U: Future<Output = B> + Send + 'static, G: Fn(A) -> U + V] (a: A, g: G) -> impl Future<Output = B> ; async move { AsyncM::pure(a).bind(move |a: A| { let t = g(a); async move { AsyncM::pure(t.await) } }).try_get().await } ; async move { g(a).await } }
law!{ a_bind_twice [A: V, B: V, T: Future<Output = A> + Send + 'static, F: Fn() -> T + V, U: Future<Output = B> + Send + 'static, G: Fn(A) -> U + V] (f: F, g: G) -> impl Future<Output = (B, B)> ; async move { let m = AsyncM::new(f).bind(move |a: A| { let t = g(a); async move { AsyncM::pure(t.await) } }); let x = m.try_get().await; let y = m.try_get().await; (x, y) } ; async move { let a = f().await; let x = g(a).await; let b = f().await; let y = g(b).await; (x, y) } }
law!{ a_bind_owned_defers [A: V, B: V, T: Future<Output = A> + Send + 'static, F: Fn() -> T + V, U: Future<Output = AsyncM<B>> + Send + 'static, G: Fn(A) -> U + V] (f: F, g: G) -> () ; { let _m = AsyncM::new(f).bind_owned(g); } ; () }
law!{ a_bind_owned_run [A: V, B: V, T: Future<Output = A> + Send + 'static, F: Fn() -> T + V, U: Future<Output = B> + Send + 'static, G: Fn(A) -> U + V] (f: F, g: G) -> impl Future<Output = B> ; async move { AsyncM::new(f).bind_owned(move |a: A| { let g = g.clone(); async move { AsyncM::new(move || g(a.clone())) } }).try_get().await } ; async move { let a = f().await; g(a).await } }
law!{ a_bind_owned_run_pure [A: V, B: V, T: Future<Output = A> + Send + 'static, F: Fn() -> T + V, U: Future<Output = B> + Send + 'static, G: Fn(A) -> U + V] (f: F, g: G) -> impl Future<Output = B> ; async move { AsyncM::new(f).bind_owned(move |a: A| { let t = g(a); async move { AsyncM::pure(t.await) } }).try_get().await } ; async move { let a = f().await; g(a).await } }
law!{ a_bind_owned_pure [A: V, B: V, U: Future<Output = B> + Send + 'static, G: Fn(A) -> U + V] (a: A, g: G) -> impl Future<Output = B> ; async move { AsyncM::pure(a).bind_owned(move |a: A| { let t = g(a); async move { AsyncM::pure(t.await) } }).try_get().await } ; async move { g(a).await } }
law!{ a_bind_owned_twice [A: V, B: V, T: Future<Output = A> + Send + 'static, F: Fn() -> T + V, U: Future<Output = B> + Send + 'static, G: Fn(A) -> U + V] (f: F, g: G) -> impl Future<Output = (B, B)> ; async move { let m = AsyncM::new(f).bind_owned(move |a: A| { let t = g(a); async move { AsyncM::pure(t.await) } }); let x = m.try_get().await; let y = m.try_get().await; (x, y) } ; async move { let a = f().await; let x = g(a).await; let b = f().await; let y = g(b).await; (x, y) } }
law!{ a_apply_defers [A: V, B: V, K: Fn(A) -> B + V, T: Future<Output = A> + Send + 'static, F: Fn() -> T + V, U: Future<Output = K> + Send + 'static, G: Fn() -> U + V] (f: F, g: G) -> () ; { let _m = AsyncM::new(f).apply(AsyncM::new(g)); } ; () }
law!{ a_apply_run [A: V, B: V, K: Fn(A) -> B + V, T: Future<Output = A> + Send + 'static, F: Fn() -> T + V, U: Future<Output = K> + Send + 'static, G: Fn() -> U + V] (f: F, g: G) -> impl Future<Output = B> ; async move { AsyncM::new(f).apply(AsyncM::new(g)).try_get().await } ; async move { let a = f().await; let k = g().await; k(a) } }
law!{ a_apply_pure_pure [A: V, B: V, K: Fn(A) -> B + V] (a: A, k: K) -> impl Future<Output = B> ; async move { AsyncM::pure(a).apply(AsyncM::pure(k)).try_get().await } ; async move { k(a) } }
law!{ a_apply_pure_effect [A: V, B: V, K: Fn(A) -> B + V, U: Future<Output = K> + Send + 'static, G: Fn() -> U + V] (a: A, g: G) -> impl Future<Output = B> ; async move { AsyncM::pure(a).apply(AsyncM::new(g)).try_get().await } ; async move { let k = g().await; k(a) } }
law!{ a_apply_effect_pure [A: V, B: V, K: Fn(A) -> B + V, T: Future<Output = A> + Send + 'static, F: Fn() -> T + V] (f: F, k: K) -> impl Future<Output = B> ; async move { AsyncM::new(f).apply(AsyncM::pure(k)).try_get().await } ; async move { let a = f().await; k(a) } }
law!{ a_apply_owned_defers [A: V, B: V, K: Fn(A) -> B + V, T: Future<Output = A> + Send + 'static, F: Fn() -> T + V, U: Future<Output = K> + Send + 'static, G: Fn() -> U + V] (f: F, g: G) -> () ; { let _m = AsyncM::new(f).apply_owned(AsyncM::new(g)); } ; () }
law!{ a_apply_owned_run [A: V, B: V, K: Fn(A) -> B + V, T: Future<Output = A> + Send + 'static, F: Fn() -> T + V, U: Future<Output = K> + Send + 'static, G: Fn() -> U + V] (f: F, g: G) -> impl Future<Output = B> ; async move { AsyncM::new(f).apply_owned(AsyncM::new(g)).try_get().await } ; async move { let a = f().await; let k = g().await; k(a) } }
law!{ a_apply_owned_pure_pure [A: V, B: V, K: Fn(A) -> B + V] (a: A, k: K) -> impl Future<Output = B> ; async move { AsyncM::pure(a).apply_owned(AsyncM::pure(k)).try_get().await } ; async move { k(a) } }
law!{ a_apply_owned_pure_effect [A: V, B: V, K: Fn(A) -> B + V, U: Future<Output = K> + Send + 'static, G: Fn() -> U + V] (a: A, g: G) -> impl Future<Output = B> ; async move { AsyncM::pure(a).apply_owned(AsyncM::new(g)).try_get().await } ; async move { let k = g().await; k(a) } }
law!{ a_apply_owned_effect_pure [A: V, B: V, K: Fn(A) -> B + V, T: Future<Output = A> + Send + 'static, F: Fn() -> T + V] (f: F, k: K) -> impl Future<Output = B> ; async move { AsyncM::new(f).apply_owned(AsyncM::pure(k)).try_get().await } ; async move { let a = f().await; k(a) } }
law!{ a_zip_with_defers [A: V, B: V, C: V, K: Fn(A, B) -> C + V, T: Future<Output = A> + Send + 'static, F: Fn() -> T + V, U: Future<Output = B> + Send + 'static, G: Fn() -> U + V] (f: F, g: G, k: K) -> () ; { let _m = AsyncM::new(f).zip_with(AsyncM::new(g), k); } ; () }
law!{ a_zip_with [A: V, B: V, C: V, K: Fn(A, B) -> C + V, T: Future<Output = A> + Send + 'static, F: Fn() -> T + V, U: Future<Output = B> + Send + 'static, G: Fn() -> U + V] (f: F, g: G, k: K) -> impl Future<Output = C> ; async move { AsyncM::new(f).zip_with(AsyncM::new(g), k).try_get().await } ; async move { let a = f().await; let b = g().await; k(a, b) } }
law!{ a_zip_with_pure [A: V, B: V, C: V, K: Fn(A, B) -> C + V] (a: A, b: B, k: K) -> impl Future<Output = C> ; async move { AsyncM::pure(a).zip_with(AsyncM::pure(b), k).try_get().await } ; async move { k(a, b) } }
law!{ a_zip [A: V, B: V, T: Future<Output = A> + Send + 'static, F: Fn() -> T + V, U: Future<Output = B> + Send + 'static, G: Fn() -> U + V] (f: F, g: G) -> impl Future<Output = (A, B)> ; async move { AsyncM::new(f).zip(AsyncM::new(g)).try_get().await } ; async move { let a = f().await; let b = g().await; (a, b) } }
law!{ a_from_result [A: V, X: V, T: Future<Output = Result<A, X>> + Send + 'static, F: Fn() -> T + V] (f: F, d: A) -> impl Future<Output = A> ; async move { AsyncM::from_result_or_default(f, d).try_get().await } ; async move { match f().await { Ok(a) => a, Err(_) => d } } }
law!{ a_from_result_defers [A: V, X: V, T: Future<Output = Result<A, X>> + Send + 'static, F: Fn() -> T + V] (f: F, d: A) -> () ; { let _m = AsyncM::from_result_or_default(f, d); } ; () }
law!{ a_recover_with [A: V, T: Future<Output = A> + Send + 'static, F: Fn() -> T + V] (f: F, d: A) -> impl Future<Output = A> ; async move { AsyncM::new(f).recover_with(d).try_get().await } ; async move { match futures::FutureExt::catch_unwind(AssertUnwindSafe(async { f().await })).await { Ok(a) => a, Err(_) => d } } }
law!{ a_recover_with_defers [A: V, T: Future<Output = A> + Send + 'static, F: Fn() -> T + V] (f: F, d: A) -> () ; { let _m = AsyncM::new(f).recover_with(d); } ; () }
root!(future_io_shared [A: V + Sync, F: std::future::Future<Output = A> + Send + 'static] (fut: F) -> A ; crate::datatypes::io::IO::new_async(fut).run());
law!{ future_io_run [A: V + Sync, F: Future<Output = A> + Send + 'static] (fut: F) -> impl Future<Output = A> ; async move { crate::datatypes::io::IO::new_async(fut).run() } ; async move { fut.await } }
law!{ future_io_twice [A: V + Sync, F: Future<Output = A> + Send + 'static] (fut: F) -> impl Future<Output = (A, A)> ; async move { let io = crate::datatypes::io::IO::new_async(fut); let a = io.run(); let b = io.run(); (a, b) } ; async move { let a = fut.await; (a.clone(), a) } }
law!{ future_io_clone [A: V + Sync, F: Future<Output = A> + Send + 'static] (fut: F) -> impl Future<Output = (A, A, A)> ; async move { let io = crate::datatypes::io::IO::new_async(fut); let jo = io.clone(); let a = io.run(); let b = jo.run(); let c = io.run(); (a, b, c) } ; async move { let a = fut.await; (a.clone(), a.clone(), a) } }
law!{ future_io_deferred [A: V + Sync, F: Future<Output = A> + Send + 'static, B: V] (fut: F, b: B) -> impl Future<Output = B> ; async move { let _io = crate::datatypes::io::IO::new_async(fut); b } ; async move { b } }
law!{ into_error_pipeline [A: V, F: Fn() -> A + V] (f: F) -> Option<A> ; IO::new(f).into_error_pipeline().finish().ok() ; catch_unwind(AssertUnwindSafe(|| f())).ok() }
law!{ delay_sync_defers [A: V] (d: std::time::Duration, a: A) -> bool ; IO::delay_sync(d, a).is_effect() ; true }
law!{ delay_sync_run [A: V] (d: std::time::Duration, a: A) -> A ; IO::delay_sync(d, a).run() ; { std::thread::sleep(d); a } }
law!{ delay_run [A: V] (d: std::time::Duration, a: A) -> impl Future<Output = A> ; async move { IO::delay(d, a).run() } ; async move { tokio::time::sleep(d).await; a } }
law!{ new_defers__again [A: V, F: Fn() -> A + V] (f: F) -> (bool, bool) ; { let m0 = IO::new(f); let y1 = m0.is_effect(); let y2 = m0.is_effect(); (y1, y2) } ; { let y1 = { let f = f.clone(); true }; let y2 = { true }; (y1, y2) } }
law!{ new_run__again [A: V, F: Fn() -> A + V] (f: F) -> (A, A) ; { let m0 = IO::new(f); let y1 = m0.run(); let y2 = m0.run(); (y1, y2) } ; { let y1 = { let f = f.clone(); f() }; let y2 = { f() }; (y1, y2) } }
law!{ pure_run__again [A: V] (a: A) -> (A, A) ; { let m0 = IO::pure(a); let y1 = m0.run(); let y2 = m0.run(); (y1, y2) } ; { let y1 = { let a = a.clone(); a }; let y2 = { a }; (y1, y2) } }
law!{ clone_run__again [A: V, F: Fn() -> A + V] (p: bool, a: A, f: F) -> (A, A) ; { let m0 = act(p, a, f).clone(); let y1 = m0.run(); let y2 = m0.run(); (y1, y2) } ; { let y1 = { let p = p.clone(); let a = a.clone(); let f = f.clone(); acted(p, a, &f) }; let y2 = { acted(p, a, &f) }; (y1, y2) } }
law!{ fmap_defers__again [A: V, B: V, F: Fn() -> A + V, G: Fn(A) -> B + V] (f: F, g: G) -> (bool, bool) ; { let m0 = IO::new(f).fmap(g); let y1 = m0.is_effect(); let y2 = m0.is_effect(); (y1, y2) } ; { let y1 = { let f = f.clone(); let g = g.clone(); true }; let y2 = { true }; (y1, y2) } }
vlaw!{ fmap_run__again [A: V, B: V, F: Fn() -> A + V, G: Fn(A) -> B + V] (p: bool, a: A, f: F, g: G) -> (B, B) ; { let m0 = act(p, a, f).fmap(g); let y1 = m0.run(); let y2 = m0.run(); (y1, y2) } ; { let y1 = { let p = p.clone(); let a = a.clone(); let f = f.clone(); let g = g.clone(); g(acted(p, a, &f)) }; let y2 = { g(acted(p, a, &f)) }; (y1, y2) } }
law!{ bind_defers__again [A: V, B: V, F: Fn() -> A + V, G: Fn(A) -> IO<B> + V] (f: F, g: G) -> (bool, bool) ; { let m0 = IO::new(f).bind(g); let y1 = m0.is_effect(); let y2 = m0.is_effect(); (y1, y2) } ; { let y1 = { let f = f.clone(); let g = g.clone(); true }; let y2 = { true }; (y1, y2) } }
vlaw!{ bind_run__again [A: V, B: V, F: Fn() -> A + V, G: Fn(A) -> B + V, H: Fn(A) -> B + V] (p: bool, q: bool, a: A, f: F, g: G, h: H) -> (B, B) ; { let m0 = act(p, a, f).bind(move |x: A| if q { IO::pure(g(x)) } else { let h = h.clone(); IO::new(move || h(x.clone())) }); let y1 = m0.run(); let y2 = m0.run(); (y1, y2) } ; { let y1 = { let p = p.clone(); let q = q.clone(); let a = a.clone(); let f = f.clone(); let g = g.clone(); let h = h.clone(); { let x = acted(p, a, &f); if q { g(x) } else { h(x) } } }; let y2 = { { let x = acted(p, a, &f); if q { g(x) } else { h(x) } } }; (y1, y2) } }
vlaw!{ bind_run_opaque__again [A: V, B: V, F: Fn() -> A + V, G: Fn(A) -> IO<B> + V] (p: bool, a: A, f: F, g: G) -> (B, B) ; { let m0 = act(p, a, f).bind(g); let y1 = m0.run(); let y2 = m0.run(); (y1, y2) } ; { let y1 = { let p = p.clone(); let a = a.clone(); let f = f.clone(); let g = g.clone(); g(acted(p, a, &f)).run() }; let y2 = { g(acted(p, a, &f)).run() }; (y1, y2) } }
vlaw!{ left_identity__again [A: V, B: V, G: Fn(A) -> IO<B> + V] (a: A, g: G) -> (B, B) ; { let m0 = IO::pure(a.clone()).bind(g.clone()); let y1 = m0.run(); let y2 = m0.run(); (y1, y2) } ; { let y1 = { let a = a.clone(); let g = g.clone(); g(a).run() }; let y2 = { g(a).run() }; (y1, y2) } }
law!{ right_identity__again [A: V, F: Fn() -> A + V] (p: bool, a: A, f: F) -> (A, A) ; { let m0 = act(p, a, f).bind(|x| IO::pure(x)); let y1 = m0.run(); let y2 = m0.run(); (y1, y2) } ; { let y1 = { let p = p.clone(); let a = a.clone(); let f = f.clone(); acted(p, a, &f) }; let y2 = { acted(p, a, &f) }; (y1, y2) } }
vlaw!{ associativity__again [A: V, B: V, C: V, F: Fn() -> A + V, G: Fn(A) -> IO<B> + V, H: Fn(B) -> IO<C> + V] (p: bool, a: A, f: F, g: G, h: H) -> (C, C) ; { let m0 = act(p, a, f).bind(g).bind(h); let y1 = m0.run(); let y2 = m0.run(); (y1, y2) } ; { let y1 = { let p = p.clone(); let a = a.clone(); let f = f.clone(); let g = g.clone(); let h = h.clone(); act(p, a, f).bind(move |x| { let h = h.clone(); g(x).bind(h) }).run() }; let y2 = { act(p, a, f).bind(move |x| { let h = h.clone(); g(x).bind(h) }).run() }; (y1, y2) } }
law!{ apply_run_effects__again [A: V, B: V, K: Fn(A) -> B + V, F: Fn() -> A + V, G: Fn() -> K + V] (f: F, g: G) -> (B, B) ; { let m0 = IO::new(f).apply::<B, K>(IO::new(g)); let y1 = m0.run(); let y2 = m0.run(); (y1, y2) } ; { let y1 = { let f = f.clone(); let g = g.clone(); { let k = g(); k(f()) } }; let y2 = { { let k = g(); k(f()) } }; (y1, y2) } }
law!{ apply_defers__again [A: V, B: V, K: Fn(A) -> B + V, F: Fn() -> A + V, G: Fn() -> K + V] (f: F, g: G) -> (bool, bool) ; { let m0 = IO::new(f).apply::<B, K>(IO::new(g)); let y1 = m0.is_effect(); let y2 = m0.is_effect(); (y1, y2) } ; { let y1 = { let f = f.clone(); let g = g.clone(); true }; let y2 = { true }; (y1, y2) } }
law!{ apply_pure_effect__again [A: V, B: V, K: Fn(A) -> B + V, G: Fn() -> K + V] (a: A, g: G) -> (B, B) ; { let m0 = IO::pure(a).apply::<B, K>(IO::new(g)); let y1 = m0.run(); let y2 = m0.run(); (y1, y2) } ; { let y1 = { let a = a.clone(); let g = g.clone(); g()(a) }; let y2 = { g()(a) }; (y1, y2) } }
law!{ apply_effect_pure__again [A: V, B: V, K: Fn(A) -> B + V, F: Fn() -> A + V] (f: F, k: K) -> (B, B) ; { let m0 = IO::new(f).apply::<B, K>(IO::pure(k)); let y1 = m0.run(); let y2 = m0.run(); (y1, y2) } ; { let y1 = { let f = f.clone(); let k = k.clone(); k(f()) }; let y2 = { k(f()) }; (y1, y2) } }
vlaw!{ apply_pure_pure__again [A: V, B: V, K: Fn(A) -> B + V] (a: A, k: K) -> (B, B) ; { let m0 = IO::pure(a).apply::<B, K>(IO::pure(k)); let y1 = m0.run(); let y2 = m0.run(); (y1, y2) } ; { let y1 = { let a = a.clone(); let k = k.clone(); k(a) }; let y2 = { k(a) }; (y1, y2) } }
law!{ apply_pure_effect_defers__again [A: V, B: V, K: Fn(A) -> B + V, G: Fn() -> K + V] (a: A, g: G) -> (bool, bool) ; { let m0 = IO::pure(a).apply::<B, K>(IO::new(g)); let y1 = m0.is_effect(); let y2 = m0.is_effect(); (y1, y2) } ; { let y1 = { let a = a.clone(); let g = g.clone(); true }; let y2 = { true }; (y1, y2) } }
law!{ apply_effect_pure_defers__again [A: V, B: V, K: Fn(A) -> B + V, F: Fn() -> A + V] (f: F, k: K) -> (bool, bool) ; { let m0 = IO::new(f).apply::<B, K>(IO::pure(k)); let y1 = m0.is_effect(); let y2 = m0.is_effect(); (y1, y2) } ; { let y1 = { let f = f.clone(); let k = k.clone(); true }; let y2 = { true }; (y1, y2) } }
law!{ combine_run__again [A: V, B: V, F: Fn() -> A + V, G: Fn() -> B + V] (p: bool, q: bool, a: A, b: B, f: F, g: G) -> ((A, B), (A, B)) ; { let m0 = IO::combine(&act(p, a, f), &act(q, b, g)); let y1 = m0.run(); let y2 = m0.run(); (y1, y2) } ; { let y1 = { let p = p.clone(); let q = q.clone(); let a = a.clone(); let b = b.clone(); let f = f.clone(); let g = g.clone(); { let x = acted(p, a, &f); let y = acted(q, b, &g); (x, y) } }; let y2 = { { let x = acted(p, a, &f); let y = acted(q, b, &g); (x, y) } }; (y1, y2) } }
law!{ sequence_run__again [A: V, F: Fn(u32) -> A + V] (v: Vec<u32>, f: F) -> (Vec<A>, Vec<A>) ; { let m0 = IO::sequence(v.into_iter().map(|i| { let f = f.clone(); IO::new(move || f(i)) }).collect::<Vec<_>>()); let y1 = m0.run(); let y2 = m0.run(); (y1, y2) } ; { let y1 = { let v = v.clone(); let f = f.clone(); { let mut r = Vec::new(); for i in v { r.push(f(i)); } r } }; let y2 = { { let mut r = Vec::new(); for i in v { r.push(f(i)); } r } }; (y1, y2) } }
law!{ sequence_any__again [A: V] (v: Vec<IO<A>>) -> (Vec<A>, Vec<A>) ; { let m0 = IO::sequence(v.clone()); let y1 = m0.run(); let y2 = m0.run(); (y1, y2) } ; { let y1 = { let v = v.clone(); { let mut r = Vec::new(); for m in v.iter() { r.push(m.run()); } r } }; let y2 = { { let mut r = Vec::new(); for m in v.iter() { r.push(m.run()); } r } }; (y1, y2) } }
law!{ sequence_defers__again [A: V] (v: Vec<IO<A>>) -> (bool, bool) ; { let m0 = IO::sequence(v); let y1 = m0.is_effect(); let y2 = m0.is_effect(); (y1, y2) } ; { let y1 = { let v = v.clone(); true }; let y2 = { true }; (y1, y2) } }
law!{ when_run__again [A: V, P: Fn() -> bool + V, F: Fn() -> A + V, D: Fn() -> A + V] (p: P, f: F, d: D) -> (A, A) ; { let m0 = IO::when(p, f, d); let y1 = m0.run(); let y2 = m0.run(); (y1, y2) } ; { let y1 = { let p = p.clone(); let f = f.clone(); let d = d.clone(); if p() { f() } else { d() } }; let y2 = { if p() { f() } else { d() } }; (y1, y2) } }
law!{ when_defers__again [A: V, P: Fn() -> bool + V, F: Fn() -> A + V, D: Fn() -> A + V] (p: P, f: F, d: D) -> (bool, bool) ; { let m0 = IO::when(p, f, d); let y1 = m0.is_effect(); let y2 = m0.is_effect(); (y1, y2) } ; { let y1 = { let p = p.clone(); let f = f.clone(); let d = d.clone(); true }; let y2 = { true }; (y1, y2) } }
law!{ try_get__again [A: V, F: Fn() -> A + V] (f: F) -> (Option<A>, Option<A>) ; { let m0 = IO::new(f); let y1 = m0.try_get().ok(); let y2 = m0.try_get().ok(); (y1, y2) } ; { let y1 = { let f = f.clone(); catch_unwind(AssertUnwindSafe(|| f())).ok() }; let y2 = { catch_unwind(AssertUnwindSafe(|| f())).ok() }; (y1, y2) } }
law!{ try_get_pure__again [A: V] (a: A) -> (Option<A>, Option<A>) ; { let m0 = IO::pure(a); let y1 = m0.try_get().ok(); let y2 = m0.try_get().ok(); (y1, y2) } ; { let y1 = { let a = a.clone(); catch_unwind(AssertUnwindSafe(|| a.clone())).ok() }; let y2 = { catch_unwind(AssertUnwindSafe(|| a.clone())).ok() }; (y1, y2) } }
law!{ try_get_composable__again [A: V, F: Fn() -> A + V] (f: F) -> (Option<A>, Option<A>) ; { let m0 = IO::new(f); let y1 = m0.try_get_composable().ok(); let y2 = m0.try_get_composable().ok(); (y1, y2) } ; { let y1 = { let f = f.clone(); catch_unwind(AssertUnwindSafe(|| f())).ok() }; let y2 = { catch_unwind(AssertUnwindSafe(|| f())).ok() }; (y1, y2) } }
law!{ try_get_with_context__again [A: V, F: Fn() -> A + V] (f: F, c: String, z_c: String) -> (Option<A>, Option<A>) ; { let m0 = IO::new(f); let y1 = m0.try_get_with_context(c.clone()).ok(); let y2 = m0.try_get_with_context(z_c).ok(); (y1, y2) } ; { let y1 = { let f = f.clone(); let c = c.clone(); catch_unwind(AssertUnwindSafe(|| f())).ok() }; let y2 = { let c = z_c; catch_unwind(AssertUnwindSafe(|| f())).ok() }; (y1, y2) } }
law!{ recover_run__again [A: V, F: Fn() -> A + V, G: Fn() -> A + V] (f: F, g: G) -> (A, A) ; { let m0 = IO::new(f).recover(move |_| { let g = g.clone(); IO::new(g) }); let y1 = m0.run(); let y2 = m0.run(); (y1, y2) } ; { let y1 = { let f = f.clone(); let g = g.clone(); match catch_unwind(AssertUnwindSafe(|| f())) { Ok(x) => x, Err(_) => g() } }; let y2 = { match catch_unwind(AssertUnwindSafe(|| f())) { Ok(x) => x, Err(_) => g() } }; (y1, y2) } }
law!{ recover_defers__again [A: V, F: Fn() -> A + V, G: Fn(Box<ComposableError<IOError>>) -> IO<A> + V] (f: F, g: G) -> (bool, bool) ; { let m0 = IO::new(f).recover(g); let y1 = m0.is_effect(); let y2 = m0.is_effect(); (y1, y2) } ; { let y1 = { let f = f.clone(); let g = g.clone(); true }; let y2 = { true }; (y1, y2) } }
law!{ recover_with_run__again [A: V, F: Fn() -> A + V] (f: F, d: A) -> (A, A) ; { let m0 = IO::new(f).recover_with(d); let y1 = m0.run(); let y2 = m0.run(); (y1, y2) } ; { let y1 = { let f = f.clone(); let d = d.clone(); match catch_unwind(AssertUnwindSafe(|| f())) { Ok(x) => x, Err(_) => d } }; let y2 = { match catch_unwind(AssertUnwindSafe(|| f())) { Ok(x) => x, Err(_) => d } }; (y1, y2) } }
law!{ recover_with_defers__again [A: V, F: Fn() -> A + V] (f: F, d: A) -> (bool, bool) ; { let m0 = IO::new(f).recover_with(d); let y1 = m0.is_effect(); let y2 = m0.is_effect(); (y1, y2) } ; { let y1 = { let f = f.clone(); let d = d.clone(); true }; let y2 = { true }; (y1, y2) } }
law!{ a_pure__again [A: V] (a: A) -> impl Future<Output = (A, A)> ; async move { let m0 = AsyncM::pure(a); let y1 = m0.try_get().await; let y2 = m0.try_get().await; (y1, y2) } ; async move { let y1 = { let a = a.clone(); a }; let y2 = { a }; (y1, y2) } }
law!{ a_new_run__again [A: V, T: Future<Output = A> + Send + 'static, F: Fn() -> T + V] (f: F) -> impl Future<Output = (A, A)> ; async move { let m0 = AsyncM::new(f); let y1 = m0.try_get().await; let y2 = m0.try_get().await; (y1, y2) } ; async move { let y1 = { let f = f.clone(); f().await }; let y2 = { f().await }; (y1, y2) } }
law!{ a_fmap_run__again [A: V, B: V, T: Future<Output = A> + Send + 'static, F: Fn() -> T + V, U: Future<Output = B> + Send + 'static, G: Fn(A) -> U + V] (f: F, g: G) -> impl Future<Output = (B, B)> ; async move { let m0 = AsyncM::new(f).fmap(g); let y1 = m0.try_get().await; let y2 = m0.try_get().await; (y1, y2) } ; async move { let y1 = { let f = f.clone(); let g = g.clone(); let a = f().await; g(a).await }; let y2 = { let a = f().await; g(a).await }; (y1, y2) } }
law!{ a_fmap_pure__again [A: V, B: V, U: Future<Output = B> + Send + 'static, G: Fn(A) -> U + V] (a: A, g: G) -> impl Future<Output = (B, B)> ; async move { let m0 = AsyncM::pure(a).fmap(g); let y1 = m0.try_get().await; let y2 = m0.try_get().await; (y1, y2) } ; async move { let y1 = { let a = a.clone(); let g = g.clone(); g(a).await }; let y2 = { g(a).await }; (y1, y2) } }
law!{ a_fmap_owned_run__again [A: V, B: V, T: Future<Output = A> + Send + 'static, F: Fn() -> T + V, U: Future<Output = B> + Send + 'static, G: Fn(A) -> U + V] (f: F, g: G) -> impl Future<Output = (B, B)> ; async move { let m0 = AsyncM::new(f).fmap_owned(g); let y1 = m0.try_get().await; let y2 = m0.try_get().await; (y1, y2) } ; async move { let y1 = { let f = f.clone(); let g = g.clone(); let a = f().await; g(a).await }; let y2 = { let a = f().await; g(a).await }; (y1, y2) } }
law!{ a_fmap_owned_pure__again [A: V, B: V, U: Future<Output = B> + Send + 'static, G: Fn(A) -> U + V] (a: A, g: G) -> impl Future<Output = (B, B)> ; async move { let m0 = AsyncM::pure(a).fmap_owned(g); let y1 = m0.try_get().await; let y2 = m0.try_get().await; (y1, y2) } ; async move { let y1 = { let a = a.clone(); let g = g.clone(); g(a).await }; let y2 = { g(a).await }; (y1, y2) } }
law!{ a_bind_run__again [A: V, B: V, T: Future<Output = A> + Send + 'static, F: Fn() -> T + V, U: Future<Output = B> + Send + 'static, G: Fn(A) -> U + V] (f: F, g: G) -> impl Future<Output = (B, B)> ; async move { let m0 = AsyncM::new(f).bind(move |a: A| { let g = g.clone(); async move { AsyncM::new(move || g(a.clone())) } }); let y1 = m0.try_get().await; let y2 = m0.try_get().await; (y1, y2) } ; async move { let y1 = { let f = f.clone(); let g = g.clone(); let a = f().await; g(a).await }; let y2 = { let a = f().await; g(a).await }; (y1, y2) } }
law!{ a_bind_run_pure__again [A: V, B: V, T: Future<Output = A> + Send + 'static, F: Fn() -> T + V, U: Future<Output = B> + Send + 'static, G: Fn(A) -> U + V] (f: F, g: G) -> impl Future<Output = (B, B)> ; async move { let m0 = AsyncM::new(f).bind(move |a: A| { let t = g(a); async move { AsyncM::pure(t.await) } }); let y1 = m0.try_get().await; let y2 = m0.try_get().await; (y1, y2) } ; async move { let y1 = { let f = f.clone(); let g = g.clone(); let a = f().await; g(a).await }; let y2 = { let a = f().await; g(a).await }; (y1, y2) } }
law!{ a_bind_pure__again [A: V, B: V, U: Future<Output = B> + Send + 'static, G: Fn(A) -> U + V] (a: A, g: G) -> impl Future<Output = (B, B)> ; async move { let m0 = AsyncM::pure(a).bind(move |a: A| { let t = g(a); async move { AsyncM::pure(t.await) } }); let y1 = m0.try_get().await; let y2 = m0.try_get().await; (y1, y2) } ; async move { let y1 = { let a = a.clone(); let g = g.clone(); g(a).await }; let y2 = { g(a).await }; (y1, y2) } }
law!{ a_bind_owned_run__again [A: V, B: V, T: Future<Output = A> + Send + 'static, F: Fn() -> T + V, U: Future<Output = B> + Send + 'static, G: Fn(A) -> U + V] (f: F, g: G) -> impl Future<Output = (B, B)> ; async move { let m0 = AsyncM::new(f).bind_owned(move |a: A| { let g = g.clone(); async move { AsyncM::new(move || g(a.clone())) } }); let y1 = m0.try_get().await; let y2 = m0.try_get().await; (y1, y2) } ; async move { let y1 = { let f = f.clone(); let g = g.clone(); let a = f().await; g(a).await }; let y2 = { let a = f().await; g(a).await }; (y1, y2) } }
law!{ a_bind_owned_run_pure__again [A: V, B: V, T: Future<Output = A> + Send + 'static, F: Fn() -> T + V, U: Future<Output = B> + Send + 'static, G: Fn(A) -> U + V] (f: F, g: G) -> impl Future<Output = (B, B)> ; async move { let m0 = AsyncM::new(f).bind_owned(move |a: A| { let t = g(a); async move { AsyncM::pure(t.await) } }); let y1 = m0.try_get().await; let y2 = m0.try_get().await; (y1, y2) } ; async move { let y1 = { let f = f.clone(); let g = g.clone(); let a = f().await; g(a).await }; let y2 = { let a = f().await; g(a).await }; (y1, y2) } }
law!{ a_bind_owned_pure__again [A: V, B: V, U: Future<Output = B> + Send + 'static, G: Fn(A) -> U + V] (a: A, g: G) -> impl Future<Output = (B, B)> ; async move { let m0 = AsyncM::pure(a).bind_owned(move |a: A| { let t = g(a); async move { AsyncM::pure(t.await) } }); let y1 = m0.try_get().await; let y2 = m0.try_get().await; (y1, y2) } ; async move { let y1 = { let a = a.clone(); let g = g.clone(); g(a).await }; let y2 = { g(a).await }; (y1, y2) } }
law!{ a_apply_run__again [A: V, B: V, K: Fn(A) -> B + V, T: Future<Output = A> + Send + 'static, F: Fn() -> T + V, U: Future<Output = K> + Send + 'static, G: Fn() -> U + V] (f: F, g: G) -> impl Future<Output = (B, B)> ; async move { let m0 = AsyncM::new(f).apply(AsyncM::new(g)); let y1 = m0.try_get().await; let y2 = m0.try_get().await; (y1, y2) } ; async move { let y1 = { let f = f.clone(); let g = g.clone(); let a = f().await; let k = g().await; k(a) }; let y2 = { let a = f().await; let k = g().await; k(a) }; (y1, y2) } }
vlaw!{ a_apply_pure_pure__again [A: V, B: V, K: Fn(A) -> B + V] (a: A, k: K) -> impl Future<Output = (B, B)> ; async move { let m0 = AsyncM::pure(a).apply(AsyncM::pure(k)); let y1 = m0.try_get().await; let y2 = m0.try_get().await; (y1, y2) } ; async move { let y1 = { let a = a.clone(); let k = k.clone(); k(a) }; let y2 = { k(a) }; (y1, y2) } }
law!{ a_apply_pure_effect__again [A: V, B: V, K: Fn(A) -> B + V, U: Future<Output = K> + Send + 'static, G: Fn() -> U + V] (a: A, g: G) -> impl Future<Output = (B, B)> ; async move { let m0 = AsyncM::pure(a).apply(AsyncM::new(g)); let y1 = m0.try_get().await; let y2 = m0.try_get().await; (y1, y2) } ; async move { let y1 = { let a = a.clone(); let g = g.clone(); let k = g().await; k(a) }; let y2 = { let k = g().await; k(a) }; (y1, y2) } }
law!{ a_apply_effect_pure__again [A: V, B: V, K: Fn(A) -> B + V, T: Future<Output = A> + Send + 'static, F: Fn() -> T + V] (f: F, k: K) -> impl Future<Output = (B, B)> ; async move { let m0 = AsyncM::new(f).apply(AsyncM::pure(k)); let y1 = m0.try_get().await; let y2 = m0.try_get().await; (y1, y2) } ; async move { let y1 = { let f = f.clone(); let k = k.clone(); let a = f().await; k(a) }; let y2 = { let a = f().await; k(a) }; (y1, y2) } }
law!{ a_apply_owned_run__again [A: V, B: V, K: Fn(A) -> B + V, T: Future<Output = A> + Send + 'static, F: Fn() -> T + V, U: Future<Output = K> + Send + 'static, G: Fn() -> U + V] (f: F, g: G) -> impl Future<Output = (B, B)> ; async move { let m0 = AsyncM::new(f).apply_owned(AsyncM::new(g)); let y1 = m0.try_get().await; let y2 = m0.try_get().await; (y1, y2) } ; async move { let y1 = { let f = f.clone(); let g = g.clone(); let a = f().await; let k = g().await; k(a) }; let y2 = { let a = f().await; let k = g().await; k(a) }; (y1, y2) } }
law!{ a_apply_owned_pure_pure__again [A: V, B: V, K: Fn(A) -> B + V] (a: A, k: K) -> impl Future<Output = (B, B)> ; async move { let m0 = AsyncM::pure(a).apply_owned(AsyncM::pure(k)); let y1 = m0.try_get().await; let y2 = m0.try_get().await; (y1, y2) } ; async move { let y1 = { let a = a.clone(); let k = k.clone(); k(a) }; let y2 = { k(a) }; (y1, y2) } }
law!{ a_apply_owned_pure_effect__again [A: V, B: V, K: Fn(A) -> B + V, U: Future<Output = K> + Send + 'static, G: Fn() -> U + V] (a: A, g: G) -> impl Future<Output = (B, B)> ; async move { let m0 = AsyncM::pure(a).apply_owned(AsyncM::new(g)); let y1 = m0.try_get().await; let y2 = m0.try_get().await; (y1, y2) } ; async move { let y1 = { let a = a.clone(); let g = g.clone(); let k = g().await; k(a) }; let y2 = { let k = g().await; k(a) }; (y1, y2) } }
law!{ a_apply_owned_effect_pure__again [A: V, B: V, K: Fn(A) -> B + V, T: Future<Output = A> + Send + 'static, F: Fn() -> T + V] (f: F, k: K) -> impl Future<Output = (B, B)> ; async move { let m0 = AsyncM::new(f).apply_owned(AsyncM::pure(k)); let y1 = m0.try_get().await; let y2 = m0.try_get().await; (y1, y2) } ; async move { let y1 = { let f = f.clone(); let k = k.clone(); let a = f().await; k(a) }; let y2 = { let a = f().await; k(a) }; (y1, y2) } }
law!{ a_zip_with__again [A: V, B: V, C: V, K: Fn(A, B) -> C + V, T: Future<Output = A> + Send + 'static, F: Fn() -> T + V, U: Future<Output = B> + Send + 'static, G: Fn() -> U + V] (f: F, g: G, k: K) -> impl Future<Output = (C, C)> ; async move { let m0 = AsyncM::new(f).zip_with(AsyncM::new(g), k); let y1 = m0.try_get().await; let y2 = m0.try_get().await; (y1, y2) } ; async move { let y1 = { let f = f.clone(); let g = g.clone(); let k = k.clone(); let a = f().await; let b = g().await; k(a, b) }; let y2 = { let a = f().await; let b = g().await; k(a, b) }; (y1, y2) } }
vlaw!{ a_zip_with_pure__again [A: V, B: V, C: V, K: Fn(A, B) -> C + V] (a: A, b: B, k: K) -> impl Future<Output = (C, C)> ; async move { let m0 = AsyncM::pure(a).zip_with(AsyncM::pure(b), k); let y1 = m0.try_get().await; let y2 = m0.try_get().await; (y1, y2) } ; async move { let y1 = { let a = a.clone(); let b = b.clone(); let k = k.clone(); k(a, b) }; let y2 = { k(a, b) }; (y1, y2) } }
law!{ a_zip__again [A: V, B: V, T: Future<Output = A> + Send + 'static, F: Fn() -> T + V, U: Future<Output = B> + Send + 'static, G: Fn() -> U + V] (f: F, g: G) -> impl Future<Output = ((A, B), (A, B))> ; async move { let m0 = AsyncM::new(f).zip(AsyncM::new(g)); let y1 = m0.try_get().await; let y2 = m0.try_get().await; (y1, y2) } ; async move { let y1 = { let f = f.clone(); let g = g.clone(); let a = f().await; let b = g().await; (a, b) }; let y2 = { let a = f().await; let b = g().await; (a, b) }; (y1, y2) } }
law!{ a_from_result__again [A: V, X: V, T: Future<Output = Result<A, X>> + Send + 'static, F: Fn() -> T + V] (f: F, d: A) -> impl Future<Output = (A, A)> ; async move { let m0 = AsyncM::from_result_or_default(f, d); let y1 = m0.try_get().await; let y2 = m0.try_get().await; (y1, y2) } ; async move { let y1 = { let f = f.clone(); let d = d.clone(); match f().await { Ok(a) => a, Err(_) => d } }; let y2 = { match f().await { Ok(a) => a, Err(_) => d } }; (y1, y2) } }
law!{ a_recover_with__again [A: V, T: Future<Output = A> + Send + 'static, F: Fn() -> T + V] (f: F, d: A) -> impl Future<Output = (A, A)> ; async move { let m0 = AsyncM::new(f).recover_with(d); let y1 = m0.try_get().await; let y2 = m0.try_get().await; (y1, y2) } ; async move { let y1 = { let f = f.clone(); let d = d.clone(); match futures::FutureExt::catch_unwind(AssertUnwindSafe(async { f().await })).await { Ok(a) => a, Err(_) => d } }; let y2 = { match futures::FutureExt::catch_unwind(AssertUnwindSafe(async { f().await })).await { Ok(a) => a, Err(_) => d } }; (y1, y2) } }
law!{ delay_sync_defers__again [A: V] (d: std::time::Duration, a: A) -> (bool, bool) ; { let m0 = IO::delay_sync(d, a); let y1 = m0.is_effect(); let y2 = m0.is_effect(); (y1, y2) } ; { let y1 = { let d = d.clone(); let a = a.clone(); true }; let y2 = { true }; (y1, y2) } }
law!{ delay_sync_run__again [A: V] (d: std::time::Duration, a: A) -> (A, A) ; { let m0 = IO::delay_sync(d, a); let y1 = m0.run(); let y2 = m0.run(); (y1, y2) } ; { let y1 = { let d = d.clone(); let a = a.clone(); { std::thread::sleep(d); a } }; let y2 = { { std::thread::sleep(d); a } }; (y1, y2) } }
