use super::refs::*;
use crate::datatypes::reader::Reader;
use crate::transformers::{ReaderT, MonadTransformer};
use crate::error::types::ComposableError;
pub fn rc<T, E>(r: Result<T, ComposableError<E>>) -> Result<T, (Vec<String>, E)> { match r { Ok(x) => Ok(x), Err(c) => { let k = c.context(); Err((k, c.core_error)) } } }
law!{ new_run [E: V, A: V, F: Fn(E) -> A + V] (f: F, e: E) -> A ; Reader::new(f).run_reader(e) ; f(e) }
law!{ run_twice [E: V, A: V, F: Fn(E) -> A + V] (f: F, e: E, d: E) -> (A, A) ; { let r = Reader::new(f); let a = r.run_reader(e); let b = r.run_reader(d); (a, b) } ; { let a = f(e); let b = f(d); (a, b) } }
law!{ clone_run [E: V, A: V, F: Fn(E) -> A + V] (f: F, e: E) -> A ; Reader::new(f).clone().run_reader(e) ; f(e) }
law!{ fmap [E: V, A: V, B: V, F: Fn(E) -> A + V, G: Fn(A) -> B + V] (f: F, g: G, e: E) -> B ; Reader::new(f).fmap(g).run_reader(e) ; g(f(e)) }
law!{ fmap_any [E: V, A: V, B: V, G: Fn(A) -> B + V] (r: &Reader<E, A>, g: G, e: E) -> B ; r.fmap(g.clone()).run_reader(e.clone()) ; g(r.run_reader(e)) }
law!{ bind [E: V, A: V, B: V, F: Fn(E) -> A + V, G: Fn(A) -> Reader<E, B> + V] (f: F, g: G, e: E) -> B ; Reader::new(f).bind(g).run_reader(e) ; { let a = f(e.clone()); g(a).run_reader(e) } }
law!{ bind_any [E: V, A: V, B: V, G: Fn(A, E) -> B + V] (r: &Reader<E, A>, g: G, e: E) -> B ; r.bind({ let g = g.clone(); move |a: A| { let g = g.clone(); Reader::new(move |e: E| g(a.clone(), e)) } }).run_reader(e.clone()) ; { let a = r.run_reader(e.clone()); g(a, e) } }
law!{ left_identity [E: V, A: V, B: V, G: Fn(A) -> Reader<E, B> + V] (a: A, g: G, e: E) -> B ; Reader::<E, A>::new({ let a = a.clone(); move |_| a.clone() }).bind(g.clone()).run_reader(e.clone()) ; g(a).run_reader(e) }
law!{ right_identity [E: V, A: V, F: Fn(E) -> A + V] (f: F, e: E) -> A ; Reader::new(f).bind(|a: A| Reader::new(move |_| a.clone())).run_reader(e) ; f(e) }
law!{ associativity [E: V, A: V, B: V, C: V, F: Fn(E) -> A + V, G: Fn(A) -> Reader<E, B> + V, H: Fn(B) -> Reader<E, C> + V] (f: F, g: G, h: H, e: E) -> C ; Reader::new(f.clone()).bind(g.clone()).bind(h.clone()).run_reader(e.clone()) ; Reader::new(f).bind(move |a| { let h = h.clone(); g(a).bind(h) }).run_reader(e) }
law!{ three_steps [E: V, A: V, B: V, C: V, F: Fn(E) -> A + V, G: Fn(A, E) -> B + V, H: Fn(B, E) -> C + V] (f: F, g: G, h: H, e: E) -> C ; Reader::new(f).bind(move |a: A| { let g = g.clone(); Reader::new(move |e: E| g(a.clone(), e)) }).bind(move |b: B| { let h = h.clone(); Reader::new(move |e: E| h(b.clone(), e)) }).run_reader(e) ; { let a = f(e.clone()); let b = g(a, e.clone()); h(b, e) } }
law!{ ask [E: V] (e: E) -> E ; Reader::<E, E>::ask().run_reader(e) ; e }
law!{ ask_into [E: V, A: V + From<E>] (e: E) -> A ; Reader::<E, A>::ask().run_reader(e) ; <A as From<E>>::from(e) }
law!{ ask_transform [E: V, A: V, F: Fn(E) -> A + V] (f: F, e: E) -> A ; Reader::ask_transform(f).run_reader(e) ; f(e) }
law!{ asks [E: V, A: V, F: Fn(E) -> A + V] (f: F, e: E) -> A ; Reader::asks(f).run_reader(e) ; f(e) }
law!{ ask_with [E: V, A: V, F: Fn(&E) -> A + V, G: Fn(A) -> Id<A> + V] (f: F, g: G, e: E) -> A ; Reader::ask_with(f, g).run_reader(e) ; g(f(&e)).into_inner() }
law!{ local [E: V, A: V, F: Fn(E) -> A + V, G: Fn(E) -> E + V] (f: F, g: G, e: E) -> A ; Reader::new(f).local(g).run_reader(e) ; f(g(e)) }
law!{ local_any [E: V, A: V, G: Fn(E) -> E + V] (r: &Reader<E, A>, g: G, e: E) -> A ; r.local(g.clone()).run_reader(e.clone()) ; r.run_reader(g(e)) }
law!{ local_local [E: V, A: V, F: Fn(E) -> A + V, G: Fn(E) -> E + V, H: Fn(E) -> E + V] (f: F, g: G, h: H, e: E) -> A ; Reader::new(f).local(g).local(h).run_reader(e) ; f(g(h(e))) }
law!{ local_scope [E: V, A: V, B: V, F: Fn(E) -> A + V, G: Fn(E) -> E + V, K: Fn(A, E) -> B + V] (f: F, g: G, k: K, e: E) -> B ; Reader::new(f).local(g).bind(move |a: A| { let k = k.clone(); Reader::new(move |e: E| k(a.clone(), e)) }).run_reader(e) ; { let a = f(g(e.clone())); k(a, e) } }
law!{ local_scope_rhs [E: V, A: V, B: V, F: Fn(E) -> A + V, G: Fn(E) -> E + V, K: Fn(A, E) -> B + V] (f: F, g: G, k: K, e: E) -> B ; Reader::new(f).bind(move |a: A| { let k = k.clone(); Reader::new(move |e: E| k(a.clone(), e)).local(g.clone()) }).run_reader(e) ; { let a = f(e.clone()); k(a, g(e)) } }
law!{ combine [E: V, A: V, B: V, C: V, F: Fn(E) -> A + V, G: Fn(E) -> B + V, K: Fn(A, B) -> C + V] (f: F, g: G, k: K, e: E) -> C ; Reader::new(f).combine(&Reader::new(g), k).run_reader(e) ; { let a = f(e.clone()); let b = g(e); k(a, b) } }
law!{ from_t [E: V, A: V, F: Fn(E) -> A + V] (f: F, e: E) -> A ; Reader::from(ReaderT::<E, Id<A>, A>::new(move |e: E| Id::new(f(e)))).run_reader(e) ; f(e) }
law!{ t_new_run [E: V, M: V, A: V, F: Fn(E) -> M + V] (f: F, e: E) -> M ; ReaderT::<E, M, A>::new(f).run_reader(e) ; f(e) }
law!{ t_run_twice [E: V, M: V, A: V, F: Fn(E) -> M + V] (f: F, e: E, d: E) -> (M, M) ; { let r = ReaderT::<E, M, A>::new(f); let a = r.run_reader(e); let b = r.run_reader(d); (a, b) } ; { let a = f(e); let b = f(d); (a, b) } }
law!{ t_clone [E: V, M: V, A: V, F: Fn(E) -> M + V] (f: F, e: E) -> M ; ReaderT::<E, M, A>::new(f).clone().run_reader(e) ; f(e) }
law!{ t_unwrap_with [E: V, A: V, F: Fn(E) -> Option<A> + V] (f: F, e: E) -> Option<A> ; ReaderT::<E, Option<A>, A>::new(f).unwrap_with(e) ; f(e) }
law!{ t_ask [E: V, M: V, P: Fn(E) -> M + V] (p: P, e: E) -> M ; ReaderT::<E, M, E>::ask(p).run_reader(e) ; p(e) }
law!{ t_local [E: V, M: V, A: V, F: Fn(E) -> M + V, G: Fn(E) -> E + V] (f: F, g: G, e: E) -> M ; ReaderT::<E, M, A>::new(f).local(g).run_reader(e) ; f(g(e)) }
law!{ t_local_local [E: V, M: V, A: V, F: Fn(E) -> M + V, G: Fn(E) -> E + V, H: Fn(E) -> E + V] (f: F, g: G, h: H, e: E) -> M ; ReaderT::<E, M, A>::new(f).local(g).local(h).run_reader(e) ; f(g(h(e))) }
law!{ t_asks [E: V, M: V, A: V, B: V, F: Fn(E) -> B + V, P: Fn(B) -> M + V] (f: F, p: P, e: E) -> M ; ReaderT::<E, M, A>::asks(f, p).run_reader(e) ; p(f(e)) }
law!{ t_ask_with [E: V, M: V, A: V, B: V, F: Fn(&E) -> B + V, P: Fn(B) -> M + V] (f: F, p: P, e: E) -> M ; ReaderT::<E, M, A>::ask_with(f, p).run_reader(e) ; p(f(&e)) }
law!{ t_asks_with [E: V, M: V, A: V, B: V, C: V, F: Fn(&E) -> B + V, T: Fn(B) -> C + V, P: Fn(C) -> M + V] (f: F, t: T, p: P, e: E) -> M ; ReaderT::<E, M, A>::asks_with(f, t, p).run_reader(e) ; p(t(f(&e))) }
law!{ t_pure [E: V, M: V, A: V, P: Fn(A) -> M + V] (a: A, p: P, e: E) -> M ; ReaderT::<E, M, A>::pure(a, p).run_reader(e) ; p(a) }
law!{ t_lift [E: V, A: V] (m: Option<A>, e: E) -> Option<A> ; <ReaderT<E, Option<A>, A> as MonadTransformer>::lift(m.clone()).run_reader(e) ; m }
law!{ t_fmap_with [E: V, A: V, F: Fn(E) -> Option<A> + V, G: Fn(A) -> A + V] (f: F, g: G, e: E) -> Option<A> ; ReaderT::<E, Option<A>, A>::new(f).fmap_with::<A, _, _>(g, |m: Option<A>, g: G| m.map(g)).run_reader(e) ; match f(e) { Some(a) => Some(g(a)), None => None } }
law!{ t_bind_with [E: V, A: V, B: V, F: Fn(E) -> Option<A> + V, G: Fn(A, E) -> Option<B> + V] (f: F, g: G, e: E) -> Option<B> ; ReaderT::<E, Option<A>, A>::new(f).bind_with(move |a: A| { let g = g.clone(); ReaderT::<E, Option<B>, B>::new(move |e| g(a.clone(), e)) }, |m: Option<A>, k| m.and_then(|a| k(a))).run_reader(e) ; match f(e.clone()) { Some(a) => g(a, e), None => None } }
law!{ t_apply_with [E: V, A: V, F: Fn(E) -> Option<A> + V, G: Fn(E) -> Option<A> + V, K: Fn(Option<A>, Option<A>) -> Option<A> + V] (f: F, g: G, k: K, e: E) -> Option<A> ; ReaderT::<E, Option<A>, A>::new(f).apply_with::<A, fn(A) -> A, _>(&ReaderT::<E, Option<A>, fn(A) -> A>::new(g), k).run_reader(e) ; { let a = f(e.clone()); let b = g(e); k(a, b) } }
law!{ t_lift2 [E: V, A: V, F: Fn(E) -> Option<A> + V, G: Fn(E) -> Option<A> + V, H: Fn(A, A) -> A + V] (f: F, g: G, h: H, e: E) -> Option<A> ; { let m = ReaderT::<E, Option<A>, A>::new(f); let n = ReaderT::<E, Option<A>, A>::new(g); let c = m.lift2::<A, A, _, _>(h, |x: Option<A>, y: Option<A>, h: H| match (x, y) { (Some(x), Some(y)) => Some(h(x, y)), _ => None }); c(&m, &n).run_reader(e) } ; { let a = f(e.clone()); let b = g(e); match (a, b) { (Some(x), Some(y)) => Some(h(x, y)), _ => None } } }
law!{ t_combine_with [E: V, A: V, F: Fn(E) -> Option<A> + V, G: Fn(E) -> Option<A> + V, H: Fn(A, A) -> A + V] (f: F, g: G, h: H, e: E) -> Option<A> ; ReaderT::<E, Option<A>, A>::new(f).combine_with(&ReaderT::<E, Option<A>, A>::new(g), h, |x: Option<A>, y: Option<A>, h: Box<dyn Fn(&A, &A) -> A + Send + Sync>| match (x, y) { (Some(x), Some(y)) => Some(h(&x, &y)), _ => None }).run_reader(e) ; { let a = f(e.clone()); let b = g(e); match (a, b) { (Some(x), Some(y)) => Some(h(x, y)), _ => None } } }
law!{ t_fmap [E: V, A: V, F: Fn(E) -> Option<A> + V, G: Fn(A) -> A + V] (f: F, g: G, e: E) -> Option<A> ; ReaderT::<E, Option<A>, A>::new(f).fmap::<A, _>(g).run_reader(e) ; match f(e) { Some(a) => Some(g(a)), None => None } }
law!{ t_fmap_result [E: V, A: V, X: V + Debug, F: Fn(E) -> Result<A, X> + V, G: Fn(A) -> A + V] (f: F, g: G, e: E) -> Result<A, X> ; ReaderT::<E, Result<A, X>, A>::new(f).fmap::<A, _>(g).run_reader(e) ; match f(e) { Ok(a) => Ok(g(a)), Err(x) => Err(x) } }
law!{ t_bind [E: V, A: V, F: Fn(E) -> Option<A> + V, G: Fn(A, E) -> Option<A> + V] (f: F, g: G, e: E) -> Option<A> ; ReaderT::<E, Option<A>, A>::new(f).bind::<A, _>(move |a: A| { let g = g.clone(); ReaderT::<E, Option<A>, A>::new(move |e| g(a.clone(), e)) }).run_reader(e) ; match f(e.clone()) { Some(a) => g(a, e), None => None } }
law!{ t_bind_result [E: V, A: V, X: V + Debug, F: Fn(E) -> Result<A, X> + V, G: Fn(A, E) -> Result<A, X> + V] (f: F, g: G, e: E) -> Result<A, X> ; ReaderT::<E, Result<A, X>, A>::new(f).bind::<A, _>(move |a: A| { let g = g.clone(); ReaderT::<E, Result<A, X>, A>::new(move |e| g(a.clone(), e)) }).run_reader(e) ; match f(e.clone()) { Ok(a) => g(a, e), Err(x) => Err(x) } }
law!{ t_combine [E: V, A: V, F: Fn(E) -> Option<A> + V, G: Fn(E) -> Option<A> + V, H: Fn(A, A) -> A + V] (f: F, g: G, h: H, e: E) -> Option<A> ; ReaderT::<E, Option<A>, A>::new(f).combine::<A, A, _>(&ReaderT::<E, Option<A>, A>::new(g), h).run_reader(e) ; { let a = f(e.clone()); let b = g(e); match (a, b) { (Some(x), Some(y)) => Some(h(x, y)), _ => None } } }
law!{ t_combine_result [E: V, A: V, X: V + Debug, F: Fn(E) -> Result<A, X> + V, G: Fn(E) -> Result<A, X> + V, H: Fn(A, A) -> A + V] (f: F, g: G, h: H, e: E) -> Result<A, X> ; ReaderT::<E, Result<A, X>, A>::new(f).combine::<A, A, _>(&ReaderT::<E, Result<A, X>, A>::new(g), h).run_reader(e) ; { let a = f(e.clone()); let b = g(e); match a { Err(x) => Err(x), Ok(x) => match b { Err(z) => Err(z), Ok(y) => Ok(h(x, y)) } } } }
law!{ t_try_run [E: V, A: V, X: V, F: Fn(E) -> Result<A, X> + V] (f: F, e: E) -> Result<A, (Vec<String>, X)> ; rc(ReaderT::<E, Result<A, X>, A>::new(f).try_run_reader(e)) ; match f(e) { Ok(a) => Ok(a), Err(x) => Err((Vec::new(), x)) } }
law!{ t_try_run_ctx [E: V, A: V, X: V, F: Fn(E) -> Result<A, X> + V] (f: F, e: E, c: String) -> Result<A, (Vec<String>, X)> ; rc(ReaderT::<E, Result<A, X>, A>::new(f).try_run_reader_with_context(e, c)) ; match f(e) { Ok(a) => Ok(a), Err(x) => Err((one(c), x)) } }
law!{ t_map_error [E: V, A: V, X: V, Y: V, F: Fn(E) -> Result<A, X> + V, G: Fn(X) -> Y + V] (f: F, g: G, e: E) -> Result<A, Y> ; ReaderT::<E, Result<A, X>, A>::new(f).map_error(g).run_reader(e) ; match f(e) { Ok(a) => Ok(a), Err(x) => Err(g(x)) } }
law!{ t_apply [E: V, A: V, F: Fn(E) -> Option<A> + V] (f: F, e: E) -> Option<A> ; crate::transformers::lift::<ReaderT<E, Option<A>, A>, Option<A>>(f(e.clone())).run_reader(e) ; f(e) }
law!{ t_clone_run [E: V, A: V, F: Fn(E) -> Option<A> + V] (f: F, e: E) -> Option<A> ; ReaderT::<E, Option<A>, A>::new(f).clone().run_reader(e) ; f(e) }
law!{ new_run__again [E: V, A: V, F: Fn(E) -> A + V] (f: F, e: E, z_e: E) -> (A, A) ; { let m0 = Reader::new(f); let y1 = m0.run_reader(e.clone()); let y2 = m0.run_reader(z_e); (y1, y2) } ; { let y1 = { let f = f.clone(); let e = e.clone(); f(e) }; let y2 = { let e = z_e; f(e) }; (y1, y2) } }
law!{ clone_run__again [E: V, A: V, F: Fn(E) -> A + V] (f: F, e: E, z_e: E) -> (A, A) ; { let m0 = Reader::new(f).clone(); let y1 = m0.run_reader(e.clone()); let y2 = m0.run_reader(z_e); (y1, y2) } ; { let y1 = { let f = f.clone(); let e = e.clone(); f(e) }; let y2 = { let e = z_e; f(e) }; (y1, y2) } }
law!{ fmap__again [E: V, A: V, B: V, F: Fn(E) -> A + V, G: Fn(A) -> B + V] (f: F, g: G, e: E, z_e: E) -> (B, B) ; { let m0 = Reader::new(f).fmap(g); let y1 = m0.run_reader(e.clone()); let y2 = m0.run_reader(z_e); (y1, y2) } ; { let y1 = { let f = f.clone(); let g = g.clone(); let e = e.clone(); g(f(e)) }; let y2 = { let e = z_e; g(f(e)) }; (y1, y2) } }
law!{ fmap_any__again [E: V, A: V, B: V, G: Fn(A) -> B + V] (r: &Reader<E, A>, g: G, e: E, z_e: E) -> (B, B) ; { let m0 = r.fmap(g.clone()); let y1 = m0.run_reader(e.clone()); let y2 = m0.run_reader(z_e); (y1, y2) } ; { let y1 = { let r = r.clone(); let g = g.clone(); let e = e.clone(); g(r.run_reader(e)) }; let y2 = { let e = z_e; g(r.run_reader(e)) }; (y1, y2) } }
law!{ bind__again [E: V, A: V, B: V, F: Fn(E) -> A + V, G: Fn(A) -> Reader<E, B> + V] (f: F, g: G, e: E, z_e: E) -> (B, B) ; { let m0 = Reader::new(f).bind(g); let y1 = m0.run_reader(e.clone()); let y2 = m0.run_reader(z_e); (y1, y2) } ; { let y1 = { let f = f.clone(); let g = g.clone(); let e = e.clone(); { let a = f(e.clone()); g(a).run_reader(e) } }; let y2 = { let e = z_e; { let a = f(e.clone()); g(a).run_reader(e) } }; (y1, y2) } }
law!{ bind_any__again [E: V, A: V, B: V, G: Fn(A, E) -> B + V] (r: &Reader<E, A>, g: G, e: E, z_e: E) -> (B, B) ; { let m0 = r.bind({ let g = g.clone(); move |a: A| { let g = g.clone(); Reader::new(move |e: E| g(a.clone(), e)) } }); let y1 = m0.run_reader(e.clone()); let y2 = m0.run_reader(z_e); (y1, y2) } ; { let y1 = { let r = r.clone(); let g = g.clone(); let e = e.clone(); { let a = r.run_reader(e.clone()); g(a, e) } }; let y2 = { let e = z_e; { let a = r.run_reader(e.clone()); g(a, e) } }; (y1, y2) } }
law!{ left_identity__again [E: V, A: V, B: V, G: Fn(A) -> Reader<E, B> + V] (a: A, g: G, e: E, z_e: E) -> (B, B) ; { let m0 = Reader::<E, A>::new({ let a = a.clone(); move |_| a.clone() }).bind(g.clone()); let y1 = m0.run_reader(e.clone()); let y2 = m0.run_reader(z_e); (y1, y2) } ; { let y1 = { let a = a.clone(); let g = g.clone(); let e = e.clone(); g(a).run_reader(e) }; let y2 = { let e = z_e; g(a).run_reader(e) }; (y1, y2) } }
law!{ right_identity__again [E: V, A: V, F: Fn(E) -> A + V] (f: F, e: E, z_e: E) -> (A, A) ; { let m0 = Reader::new(f).bind(|a: A| Reader::new(move |_| a.clone())); let y1 = m0.run_reader(e.clone()); let y2 = m0.run_reader(z_e); (y1, y2) } ; { let y1 = { let f = f.clone(); let e = e.clone(); f(e) }; let y2 = { let e = z_e; f(e) }; (y1, y2) } }
law!{ associativity__again [E: V, A: V, B: V, C: V, F: Fn(E) -> A + V, G: Fn(A) -> Reader<E, B> + V, H: Fn(B) -> Reader<E, C> + V] (f: F, g: G, h: H, e: E, z_e: E) -> (C, C) ; { let m0 = Reader::new(f.clone()).bind(g.clone()).bind(h.clone()); let y1 = m0.run_reader(e.clone()); let y2 = m0.run_reader(z_e); (y1, y2) } ; { let y1 = { let f = f.clone(); let g = g.clone(); let h = h.clone(); let e = e.clone(); Reader::new(f).bind(move |a| { let h = h.clone(); g(a).bind(h) }).run_reader(e) }; let y2 = { let e = z_e; Reader::new(f).bind(move |a| { let h = h.clone(); g(a).bind(h) }).run_reader(e) }; (y1, y2) } }
law!{ three_steps__again [E: V, A: V, B: V, C: V, F: Fn(E) -> A + V, G: Fn(A, E) -> B + V, H: Fn(B, E) -> C + V] (f: F, g: G, h: H, e: E, z_e: E) -> (C, C) ; { let m0 = Reader::new(f).bind(move |a: A| { let g = g.clone(); Reader::new(move |e: E| g(a.clone(), e)) }).bind(move |b: B| { let h = h.clone(); Reader::new(move |e: E| h(b.clone(), e)) }); let y1 = m0.run_reader(e.clone()); let y2 = m0.run_reader(z_e); (y1, y2) } ; { let y1 = { let f = f.clone(); let g = g.clone(); let h = h.clone(); let e = e.clone(); { let a = f(e.clone()); let b = g(a, e.clone()); h(b, e) } }; let y2 = { let e = z_e; { let a = f(e.clone()); let b = g(a, e.clone()); h(b, e) } }; (y1, y2) } }
law!{ ask__again [E: V] (e: E, z_e: E) -> (E, E) ; { let m0 = Reader::<E, E>::ask(); let y1 = m0.run_reader(e.clone()); let y2 = m0.run_reader(z_e); (y1, y2) } ; { let y1 = { let e = e.clone(); e }; let y2 = { let e = z_e; e }; (y1, y2) } }
law!{ ask_into__again [E: V, A: V + From<E>] (e: E, z_e: E) -> (A, A) ; { let m0 = Reader::<E, A>::ask(); let y1 = m0.run_reader(e.clone()); let y2 = m0.run_reader(z_e); (y1, y2) } ; { let y1 = { let e = e.clone(); <A as From<E>>::from(e) }; let y2 = { let e = z_e; <A as From<E>>::from(e) }; (y1, y2) } }
law!{ ask_transform__again [E: V, A: V, F: Fn(E) -> A + V] (f: F, e: E, z_e: E) -> (A, A) ; { let m0 = Reader::ask_transform(f); let y1 = m0.run_reader(e.clone()); let y2 = m0.run_reader(z_e); (y1, y2) } ; { let y1 = { let f = f.clone(); let e = e.clone(); f(e) }; let y2 = { let e = z_e; f(e) }; (y1, y2) } }
law!{ asks__again [E: V, A: V, F: Fn(E) -> A + V] (f: F, e: E, z_e: E) -> (A, A) ; { let m0 = Reader::asks(f); let y1 = m0.run_reader(e.clone()); let y2 = m0.run_reader(z_e); (y1, y2) } ; { let y1 = { let f = f.clone(); let e = e.clone(); f(e) }; let y2 = { let e = z_e; f(e) }; (y1, y2) } }
law!{ ask_with__again [E: V, A: V, F: Fn(&E) -> A + V, G: Fn(A) -> Id<A> + V] (f: F, g: G, e: E, z_e: E) -> (A, A) ; { let m0 = Reader::ask_with(f, g); let y1 = m0.run_reader(e.clone()); let y2 = m0.run_reader(z_e); (y1, y2) } ; { let y1 = { let f = f.clone(); let g = g.clone(); let e = e.clone(); g(f(&e)).into_inner() }; let y2 = { let e = z_e; g(f(&e)).into_inner() }; (y1, y2) } }
law!{ local__again [E: V, A: V, F: Fn(E) -> A + V, G: Fn(E) -> E + V] (f: F, g: G, e: E, z_e: E) -> (A, A) ; { let m0 = Reader::new(f).local(g); let y1 = m0.run_reader(e.clone()); let y2 = m0.run_reader(z_e); (y1, y2) } ; { let y1 = { let f = f.clone(); let g = g.clone(); let e = e.clone(); f(g(e)) }; let y2 = { let e = z_e; f(g(e)) }; (y1, y2) } }
law!{ local_any__again [E: V, A: V, G: Fn(E) -> E + V] (r: &Reader<E, A>, g: G, e: E, z_e: E) -> (A, A) ; { let m0 = r.local(g.clone()); let y1 = m0.run_reader(e.clone()); let y2 = m0.run_reader(z_e); (y1, y2) } ; { let y1 = { let r = r.clone(); let g = g.clone(); let e = e.clone(); r.run_reader(g(e)) }; let y2 = { let e = z_e; r.run_reader(g(e)) }; (y1, y2) } }
law!{ local_local__again [E: V, A: V, F: Fn(E) -> A + V, G: Fn(E) -> E + V, H: Fn(E) -> E + V] (f: F, g: G, h: H, e: E, z_e: E) -> (A, A) ; { let m0 = Reader::new(f).local(g).local(h); let y1 = m0.run_reader(e.clone()); let y2 = m0.run_reader(z_e); (y1, y2) } ; { let y1 = { let f = f.clone(); let g = g.clone(); let h = h.clone(); let e = e.clone(); f(g(h(e))) }; let y2 = { let e = z_e; f(g(h(e))) }; (y1, y2) } }
law!{ local_scope__again [E: V, A: V, B: V, F: Fn(E) -> A + V, G: Fn(E) -> E + V, K: Fn(A, E) -> B + V] (f: F, g: G, k: K, e: E, z_e: E) -> (B, B) ; { let m0 = Reader::new(f).local(g).bind(move |a: A| { let k = k.clone(); Reader::new(move |e: E| k(a.clone(), e)) }); let y1 = m0.run_reader(e.clone()); let y2 = m0.run_reader(z_e); (y1, y2) } ; { let y1 = { let f = f.clone(); let g = g.clone(); let k = k.clone(); let e = e.clone(); { let a = f(g(e.clone())); k(a, e) } }; let y2 = { let e = z_e; { let a = f(g(e.clone())); k(a, e) } }; (y1, y2) } }
law!{ local_scope_rhs__again [E: V, A: V, B: V, F: Fn(E) -> A + V, G: Fn(E) -> E + V, K: Fn(A, E) -> B + V] (f: F, g: G, k: K, e: E, z_e: E) -> (B, B) ; { let m0 = Reader::new(f).bind(move |a: A| { let k = k.clone(); Reader::new(move |e: E| k(a.clone(), e)).local(g.clone()) }); let y1 = m0.run_reader(e.clone()); let y2 = m0.run_reader(z_e); (y1, y2) } ; { let y1 = { let f = f.clone(); let g = g.clone(); let k = k.clone(); let e = e.clone(); { let a = f(e.clone()); k(a, g(e)) } }; let y2 = { let e = z_e; { let a = f(e.clone()); k(a, g(e)) } }; (y1, y2) } }
law!{ combine__again [E: V, A: V, B: V, C: V, F: Fn(E) -> A + V, G: Fn(E) -> B + V, K: Fn(A, B) -> C + V] (f: F, g: G, k: K, e: E, z_e: E) -> (C, C) ; { let m0 = Reader::new(f).combine(&Reader::new(g), k); let y1 = m0.run_reader(e.clone()); let y2 = m0.run_reader(z_e); (y1, y2) } ; { let y1 = { let f = f.clone(); let g = g.clone(); let k = k.clone(); let e = e.clone(); { let a = f(e.clone()); let b = g(e); k(a, b) } }; let y2 = { let e = z_e; { let a = f(e.clone()); let b = g(e); k(a, b) } }; (y1, y2) } }
law!{ from_t__again [E: V, A: V, F: Fn(E) -> A + V] (f: F, e: E, z_e: E) -> (A, A) ; { let m0 = Reader::from(ReaderT::<E, Id<A>, A>::new(move |e: E| Id::new(f(e)))); let y1 = m0.run_reader(e.clone()); let y2 = m0.run_reader(z_e); (y1, y2) } ; { let y1 = { let f = f.clone(); let e = e.clone(); f(e) }; let y2 = { let e = z_e; f(e) }; (y1, y2) } }
law!{ t_new_run__again [E: V, M: V, A: V, F: Fn(E) -> M + V] (f: F, e: E, z_e: E) -> (M, M) ; { let m0 = ReaderT::<E, M, A>::new(f); let y1 = m0.run_reader(e.clone()); let y2 = m0.run_reader(z_e); (y1, y2) } ; { let y1 = { let f = f.clone(); let e = e.clone(); f(e) }; let y2 = { let e = z_e; f(e) }; (y1, y2) } }
law!{ t_clone__again [E: V, M: V, A: V, F: Fn(E) -> M + V] (f: F, e: E, z_e: E) -> (M, M) ; { let m0 = ReaderT::<E, M, A>::new(f).clone(); let y1 = m0.run_reader(e.clone()); let y2 = m0.run_reader(z_e); (y1, y2) } ; { let y1 = { let f = f.clone(); let e = e.clone(); f(e) }; let y2 = { let e = z_e; f(e) }; (y1, y2) } }
law!{ t_ask__again [E: V, M: V, P: Fn(E) -> M + V] (p: P, e: E, z_e: E) -> (M, M) ; { let m0 = ReaderT::<E, M, E>::ask(p); let y1 = m0.run_reader(e.clone()); let y2 = m0.run_reader(z_e); (y1, y2) } ; { let y1 = { let p = p.clone(); let e = e.clone(); p(e) }; let y2 = { let e = z_e; p(e) }; (y1, y2) } }
law!{ t_local__again [E: V, M: V, A: V, F: Fn(E) -> M + V, G: Fn(E) -> E + V] (f: F, g: G, e: E, z_e: E) -> (M, M) ; { let m0 = ReaderT::<E, M, A>::new(f).local(g); let y1 = m0.run_reader(e.clone()); let y2 = m0.run_reader(z_e); (y1, y2) } ; { let y1 = { let f = f.clone(); let g = g.clone(); let e = e.clone(); f(g(e)) }; let y2 = { let e = z_e; f(g(e)) }; (y1, y2) } }
law!{ t_local_local__again [E: V, M: V, A: V, F: Fn(E) -> M + V, G: Fn(E) -> E + V, H: Fn(E) -> E + V] (f: F, g: G, h: H, e: E, z_e: E) -> (M, M) ; { let m0 = ReaderT::<E, M, A>::new(f).local(g).local(h); let y1 = m0.run_reader(e.clone()); let y2 = m0.run_reader(z_e); (y1, y2) } ; { let y1 = { let f = f.clone(); let g = g.clone(); let h = h.clone(); let e = e.clone(); f(g(h(e))) }; let y2 = { let e = z_e; f(g(h(e))) }; (y1, y2) } }
law!{ t_asks__again [E: V, M: V, A: V, B: V, F: Fn(E) -> B + V, P: Fn(B) -> M + V] (f: F, p: P, e: E, z_e: E) -> (M, M) ; { let m0 = ReaderT::<E, M, A>::asks(f, p); let y1 = m0.run_reader(e.clone()); let y2 = m0.run_reader(z_e); (y1, y2) } ; { let y1 = { let f = f.clone(); let p = p.clone(); let e = e.clone(); p(f(e)) }; let y2 = { let e = z_e; p(f(e)) }; (y1, y2) } }
law!{ t_ask_with__again [E: V, M: V, A: V, B: V, F: Fn(&E) -> B + V, P: Fn(B) -> M + V] (f: F, p: P, e: E, z_e: E) -> (M, M) ; { let m0 = ReaderT::<E, M, A>::ask_with(f, p); let y1 = m0.run_reader(e.clone()); let y2 = m0.run_reader(z_e); (y1, y2) } ; { let y1 = { let f = f.clone(); let p = p.clone(); let e = e.clone(); p(f(&e)) }; let y2 = { let e = z_e; p(f(&e)) }; (y1, y2) } }
law!{ t_asks_with__again [E: V, M: V, A: V, B: V, C: V, F: Fn(&E) -> B + V, T: Fn(B) -> C + V, P: Fn(C) -> M + V] (f: F, t: T, p: P, e: E, z_e: E) -> (M, M) ; { let m0 = ReaderT::<E, M, A>::asks_with(f, t, p); let y1 = m0.run_reader(e.clone()); let y2 = m0.run_reader(z_e); (y1, y2) } ; { let y1 = { let f = f.clone(); let t = t.clone(); let p = p.clone(); let e = e.clone(); p(t(f(&e))) }; let y2 = { let e = z_e; p(t(f(&e))) }; (y1, y2) } }
law!{ t_pure__again [E: V, M: V, A: V, P: Fn(A) -> M + V] (a: A, p: P, e: E, z_e: E) -> (M, M) ; { let m0 = ReaderT::<E, M, A>::pure(a, p); let y1 = m0.run_reader(e.clone()); let y2 = m0.run_reader(z_e); (y1, y2) } ; { let y1 = { let a = a.clone(); let p = p.clone(); let e = e.clone(); p(a) }; let y2 = { let e = z_e; p(a) }; (y1, y2) } }
law!{ t_lift__again [E: V, A: V] (m: Option<A>, e: E, z_e: E) -> (Option<A>, Option<A>) ; { let m0 = <ReaderT<E, Option<A>, A> as MonadTransformer>::lift(m.clone()); let y1 = m0.run_reader(e.clone()); let y2 = m0.run_reader(z_e); (y1, y2) } ; { let y1 = { let m = m.clone(); let e = e.clone(); m }; let y2 = { let e = z_e; m }; (y1, y2) } }
law!{ t_fmap_with__again [E: V, A: V, F: Fn(E) -> Option<A> + V, G: Fn(A) -> A + V] (f: F, g: G, e: E, z_e: E) -> (Option<A>, Option<A>) ; { let m0 = ReaderT::<E, Option<A>, A>::new(f).fmap_with::<A, _, _>(g, |m: Option<A>, g: G| m.map(g)); let y1 = m0.run_reader(e.clone()); let y2 = m0.run_reader(z_e); (y1, y2) } ; { let y1 = { let f = f.clone(); let g = g.clone(); let e = e.clone(); match f(e) { Some(a) => Some(g(a)), None => None } }; let y2 = { let e = z_e; match f(e) { Some(a) => Some(g(a)), None => None } }; (y1, y2) } }
law!{ t_bind_with__again [E: V, A: V, B: V, F: Fn(E) -> Option<A> + V, G: Fn(A, E) -> Option<B> + V] (f: F, g: G, e: E, z_e: E) -> (Option<B>, Option<B>) ; { let m0 = ReaderT::<E, Option<A>, A>::new(f).bind_with(move |a: A| { let g = g.clone(); ReaderT::<E, Option<B>, B>::new(move |e| g(a.clone(), e)) }, |m: Option<A>, k| m.and_then(|a| k(a))); let y1 = m0.run_reader(e.clone()); let y2 = m0.run_reader(z_e); (y1, y2) } ; { let y1 = { let f = f.clone(); let g = g.clone(); let e = e.clone(); match f(e.clone()) { Some(a) => g(a, e), None => None } }; let y2 = { let e = z_e; match f(e.clone()) { Some(a) => g(a, e), None => None } }; (y1, y2) } }
law!{ t_apply_with__again [E: V, A: V, F: Fn(E) -> Option<A> + V, G: Fn(E) -> Option<A> + V, K: Fn(Option<A>, Option<A>) -> Option<A> + V] (f: F, g: G, k: K, e: E, z_e: E) -> (Option<A>, Option<A>) ; { let m0 = ReaderT::<E, Option<A>, A>::new(f).apply_with::<A, fn(A) -> A, _>(&ReaderT::<E, Option<A>, fn(A) -> A>::new(g), k); let y1 = m0.run_reader(e.clone()); let y2 = m0.run_reader(z_e); (y1, y2) } ; { let y1 = { let f = f.clone(); let g = g.clone(); let k = k.clone(); let e = e.clone(); { let a = f(e.clone()); let b = g(e); k(a, b) } }; let y2 = { let e = z_e; { let a = f(e.clone()); let b = g(e); k(a, b) } }; (y1, y2) } }
law!{ t_combine_with__again [E: V, A: V, F: Fn(E) -> Option<A> + V, G: Fn(E) -> Option<A> + V, H: Fn(A, A) -> A + V] (f: F, g: G, h: H, e: E, z_e: E) -> (Option<A>, Option<A>) ; { let m0 = ReaderT::<E, Option<A>, A>::new(f).combine_with(&ReaderT::<E, Option<A>, A>::new(g), h, |x: Option<A>, y: Option<A>, h: Box<dyn Fn(&A, &A) -> A + Send + Sync>| match (x, y) { (Some(x), Some(y)) => Some(h(&x, &y)), _ => None }); let y1 = m0.run_reader(e.clone()); let y2 = m0.run_reader(z_e); (y1, y2) } ; { let y1 = { let f = f.clone(); let g = g.clone(); let h = h.clone(); let e = e.clone(); { let a = f(e.clone()); let b = g(e); match (a, b) { (Some(x), Some(y)) => Some(h(x, y)), _ => None } } }; let y2 = { let e = z_e; { let a = f(e.clone()); let b = g(e); match (a, b) { (Some(x), Some(y)) => Some(h(x, y)), _ => None } } }; (y1, y2) } }
law!{ t_fmap__again [E: V, A: V, F: Fn(E) -> Option<A> + V, G: Fn(A) -> A + V] (f: F, g: G, e: E, z_e: E) -> (Option<A>, Option<A>) ; { let m0 = ReaderT::<E, Option<A>, A>::new(f).fmap::<A, _>(g); let y1 = m0.run_reader(e.clone()); let y2 = m0.run_reader(z_e); (y1, y2) } ; { let y1 = { let f = f.clone(); let g = g.clone(); let e = e.clone(); match f(e) { Some(a) => Some(g(a)), None => None } }; let y2 = { let e = z_e; match f(e) { Some(a) => Some(g(a)), None => None } }; (y1, y2) } }
law!{ t_fmap_result__again [E: V, A: V, X: V + Debug, F: Fn(E) -> Result<A, X> + V, G: Fn(A) -> A + V] (f: F, g: G, e: E, z_e: E) -> (Result<A, X>, Result<A, X>) ; { let m0 = ReaderT::<E, Result<A, X>, A>::new(f).fmap::<A, _>(g); let y1 = m0.run_reader(e.clone()); let y2 = m0.run_reader(z_e); (y1, y2) } ; { let y1 = { let f = f.clone(); let g = g.clone(); let e = e.clone(); match f(e) { Ok(a) => Ok(g(a)), Err(x) => Err(x) } }; let y2 = { let e = z_e; match f(e) { Ok(a) => Ok(g(a)), Err(x) => Err(x) } }; (y1, y2) } }
law!{ t_bind__again [E: V, A: V, F: Fn(E) -> Option<A> + V, G: Fn(A, E) -> Option<A> + V] (f: F, g: G, e: E, z_e: E) -> (Option<A>, Option<A>) ; { let m0 = ReaderT::<E, Option<A>, A>::new(f).bind::<A, _>(move |a: A| { let g = g.clone(); ReaderT::<E, Option<A>, A>::new(move |e| g(a.clone(), e)) }); let y1 = m0.run_reader(e.clone()); let y2 = m0.run_reader(z_e); (y1, y2) } ; { let y1 = { let f = f.clone(); let g = g.clone(); let e = e.clone(); match f(e.clone()) { Some(a) => g(a, e), None => None } }; let y2 = { let e = z_e; match f(e.clone()) { Some(a) => g(a, e), None => None } }; (y1, y2) } }
law!{ t_bind_result__again [E: V, A: V, X: V + Debug, F: Fn(E) -> Result<A, X> + V, G: Fn(A, E) -> Result<A, X> + V] (f: F, g: G, e: E, z_e: E) -> (Result<A, X>, Result<A, X>) ; { let m0 = ReaderT::<E, Result<A, X>, A>::new(f).bind::<A, _>(move |a: A| { let g = g.clone(); ReaderT::<E, Result<A, X>, A>::new(move |e| g(a.clone(), e)) }); let y1 = m0.run_reader(e.clone()); let y2 = m0.run_reader(z_e); (y1, y2) } ; { let y1 = { let f = f.clone(); let g = g.clone(); let e = e.clone(); match f(e.clone()) { Ok(a) => g(a, e), Err(x) => Err(x) } }; let y2 = { let e = z_e; match f(e.clone()) { Ok(a) => g(a, e), Err(x) => Err(x) } }; (y1, y2) } }
law!{ t_combine__again [E: V, A: V, F: Fn(E) -> Option<A> + V, G: Fn(E) -> Option<A> + V, H: Fn(A, A) -> A + V] (f: F, g: G, h: H, e: E, z_e: E) -> (Option<A>, Option<A>) ; { let m0 = ReaderT::<E, Option<A>, A>::new(f).combine::<A, A, _>(&ReaderT::<E, Option<A>, A>::new(g), h); let y1 = m0.run_reader(e.clone()); let y2 = m0.run_reader(z_e); (y1, y2) } ; { let y1 = { let f = f.clone(); let g = g.clone(); let h = h.clone(); let e = e.clone(); { let a = f(e.clone()); let b = g(e); match (a, b) { (Some(x), Some(y)) => Some(h(x, y)), _ => None } } }; let y2 = { let e = z_e; { let a = f(e.clone()); let b = g(e); match (a, b) { (Some(x), Some(y)) => Some(h(x, y)), _ => None } } }; (y1, y2) } }
law!{ t_combine_result__again [E: V, A: V, X: V + Debug, F: Fn(E) -> Result<A, X> + V, G: Fn(E) -> Result<A, X> + V, H: Fn(A, A) -> A + V] (f: F, g: G, h: H, e: E, z_e: E) -> (Result<A, X>, Result<A, X>) ; { let m0 = ReaderT::<E, Result<A, X>, A>::new(f).combine::<A, A, _>(&ReaderT::<E, Result<A, X>, A>::new(g), h); let y1 = m0.run_reader(e.clone()); let y2 = m0.run_reader(z_e); (y1, y2) } ; { let y1 = { let f = f.clone(); let g = g.clone(); let h = h.clone(); let e = e.clone(); { let a = f(e.clone()); let b = g(e); match a { Err(x) => Err(x), Ok(x) => match b { Err(z) => Err(z), Ok(y) => Ok(h(x, y)) } } } }; let y2 = { let e = z_e; { let a = f(e.clone()); let b = g(e); match a { Err(x) => Err(x), Ok(x) => match b { Err(z) => Err(z), Ok(y) => Ok(h(x, y)) } } } }; (y1, y2) } }
law!{ t_try_run__again [E: V, A: V, X: V, F: Fn(E) -> Result<A, X> + V] (f: F, e: E, z_e: E) -> (Result<A, (Vec<String>, X)>, Result<A, (Vec<String>, X)>) ; { let m0 = ReaderT::<E, Result<A, X>, A>::new(f); let y1 = rc(m0.try_run_reader(e.clone())); let y2 = rc(m0.try_run_reader(z_e)); (y1, y2) } ; { let y1 = { let f = f.clone(); let e = e.clone(); match f(e) { Ok(a) => Ok(a), Err(x) => Err((Vec::new(), x)) } }; let y2 = { let e = z_e; match f(e) { Ok(a) => Ok(a), Err(x) => Err((Vec::new(), x)) } }; (y1, y2) } }
law!{ t_try_run_ctx__again [E: V, A: V, X: V, F: Fn(E) -> Result<A, X> + V] (f: F, e: E, c: String, z_e: E) -> (Result<A, (Vec<String>, X)>, Result<A, (Vec<String>, X)>) ; { let m0 = ReaderT::<E, Result<A, X>, A>::new(f); let y1 = rc(m0.try_run_reader_with_context(e.clone(), c.clone())); let y2 = rc(m0.try_run_reader_with_context(z_e, c)); (y1, y2) } ; { let y1 = { let f = f.clone(); let e = e.clone(); let c = c.clone(); match f(e) { Ok(a) => Ok(a), Err(x) => Err((one(c), x)) } }; let y2 = { let e = z_e; match f(e) { Ok(a) => Ok(a), Err(x) => Err((one(c), x)) } }; (y1, y2) } }
law!{ t_map_error__again [E: V, A: V, X: V, Y: V, F: Fn(E) -> Result<A, X> + V, G: Fn(X) -> Y + V] (f: F, g: G, e: E, z_e: E) -> (Result<A, Y>, Result<A, Y>) ; { let m0 = ReaderT::<E, Result<A, X>, A>::new(f).map_error(g); let y1 = m0.run_reader(e.clone()); let y2 = m0.run_reader(z_e); (y1, y2) } ; { let y1 = { let f = f.clone(); let g = g.clone(); let e = e.clone(); match f(e) { Ok(a) => Ok(a), Err(x) => Err(g(x)) } }; let y2 = { let e = z_e; match f(e) { Ok(a) => Ok(a), Err(x) => Err(g(x)) } }; (y1, y2) } }
law!{ t_clone_run__again [E: V, A: V, F: Fn(E) -> Option<A> + V] (f: F, e: E, z_e: E) -> (Option<A>, Option<A>) ; { let m0 = ReaderT::<E, Option<A>, A>::new(f).clone(); let y1 = m0.run_reader(e.clone()); let y2 = m0.run_reader(z_e); (y1, y2) } ; { let y1 = { let f = f.clone(); let e = e.clone(); f(e) }; let y2 = { let e = z_e; f(e) }; (y1, y2) } }
