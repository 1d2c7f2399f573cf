use super::refs::*;
use crate::datatypes::state::{State, get, put, modify};
use crate::transformers::{StateT, MonadTransformer};
use crate::error::types::{ComposableError, IntoErrorContext};
pub fn core<E>(c: ComposableError<E>) -> (Vec<String>, E) { let k = c.context(); (k, c.core_error) }
pub fn rc<T, E>(r: Result<T, ComposableError<E>>) -> Result<T, (Vec<String>, E)> { match r { Ok(x) => Ok(x), Err(c) => Err(core(c)) } }
law!{ new_run [S: V, A: V, F: Fn(S) -> (A, S) + V] (f: F, s: S) -> (A, S) ; State::new(f).run_state(s) ; f(s) }
law!{ new_run_twice [S: V, A: V, F: Fn(S) -> (A, S) + V] (f: F, s: S, t: S) -> ((A, S), (A, S)) ; { let m = State::new(f); let a = m.run_state(s); let b = m.run_state(t); (a, b) } ; { let a = f(s); let b = f(t); (a, b) } }
law!{ clone_run [S: V, A: V, F: Fn(S) -> (A, S) + V] (f: F, s: S) -> (A, S) ; State::new(f).clone().run_state(s) ; f(s) }
law!{ eval_state [S: V, A: V, F: Fn(S) -> (A, S) + V] (f: F, s: S) -> A ; State::new(f).eval_state(s) ; f(s).0 }
law!{ exec_state [S: V, A: V, F: Fn(S) -> (A, S) + V] (f: F, s: S) -> S ; State::new(f).exec_state(s) ; f(s).1 }
law!{ exec_pure [S: V, A: V, F: Fn(S) -> (A, S) + V] (f: F, s: S) -> S ; State::new(f).exec_pure(s) ; f(s).1 }
law!{ pure [S: V, A: V] (a: A, s: S) -> (A, S) ; State::<S, A>::pure(a).run_state(s) ; (a, s) }
law!{ fmap [S: V, A: V, B: V, F: Fn(S) -> (A, S) + V, G: Fn(A) -> B + V] (f: F, g: G, s: S) -> (B, S) ; State::new(f).fmap(g).run_state(s) ; { let (a, t) = f(s); (g(a), t) } }
law!{ fmap_any [S: V, A: V, B: V, G: Fn(A) -> B + V] (m: State<S, A>, g: G, s: S) -> (B, S) ; m.clone().fmap(g.clone()).run_state(s.clone()) ; { let (a, t) = m.run_state(s); (g(a), t) } }
law!{ bind [S: V, A: V, B: V, F: Fn(S) -> (A, S) + V, G: Fn(A) -> State<S, B> + V] (f: F, g: G, s: S) -> (B, S) ; State::new(f).bind(g).run_state(s) ; { let (a, t) = f(s); g(a).run_state(t) } }
law!{ bind_any [S: V, A: V, B: V, G: Fn(A) -> State<S, B> + V] (m: State<S, A>, g: G, s: S) -> (B, S) ; m.clone().bind(g.clone()).run_state(s.clone()) ; { let (a, t) = m.run_state(s); g(a).run_state(t) } }
law!{ apply [S: V, B: V, C: V, K: Fn(B) -> C + V, F: Fn(S) -> (K, S) + V, G: Fn(S) -> (B, S) + V] (f: F, g: G, s: S) -> (C, S) ; State::new(f).apply(State::new(g)).run_state(s) ; { let (k, t) = f(s); let (b, u) = g(t); (k(b), u) } }
law!{ left_identity [S: V, A: V, B: V, G: Fn(A) -> State<S, B> + V] (a: A, g: G, s: S) -> (B, S) ; State::<S, A>::pure(a.clone()).bind(g.clone()).run_state(s.clone()) ; g(a).run_state(s) }
law!{ right_identity [S: V, A: V, F: Fn(S) -> (A, S) + V] (f: F, s: S) -> (A, S) ; State::new(f).bind(|a| State::pure(a)).run_state(s) ; f(s) }
law!{ associativity [S: V, A: V, B: V, C: V, F: Fn(S) -> (A, S) + V, G: Fn(A) -> State<S, B> + V, H: Fn(B) -> State<S, C> + V] (f: F, g: G, h: H, s: S) -> (C, S) ; State::new(f.clone()).bind(g.clone()).bind(h.clone()).run_state(s.clone()) ; State::new(f).bind(move |a| { let h = h.clone(); g(a).bind(h) }).run_state(s) }
law!{ three_steps [S: V, A: V, B: V, C: V, F: Fn(S) -> (A, S) + V, G: Fn(A, S) -> (B, S) + V, H: Fn(B, S) -> (C, S) + V] (f: F, g: G, h: H, s: S) -> (C, S) ; State::new(f).bind(move |a| { let g = g.clone(); State::new(move |s| g(a.clone(), s)) }).bind(move |b| { let h = h.clone(); State::new(move |s| h(b.clone(), s)) }).run_state(s) ; { let (a, t) = f(s); let (b, u) = g(a, t); h(b, u) } }
law!{ get_ [S: V] (s: S) -> (S, S) ; get::<S>().run_state(s) ; (s.clone(), s) }
law!{ put_ [S: V] (n: S, s: S) -> ((), S) ; put(n).run_state(s) ; ((), n) }
law!{ modify_ [S: V, F: Fn(S) -> S + V] (f: F, s: S) -> ((), S) ; modify(f).run_state(s) ; ((), f(s)) }
law!{ put_get [S: V] (n: S, s: S) -> (S, S) ; put(n).bind(|_| get::<S>()).run_state(s) ; (n.clone(), n) }
law!{ put_put [S: V] (n: S, m: S, s: S) -> ((), S) ; put(n).bind(move |_| put(m.clone())).run_state(s) ; ((), m) }
law!{ get_put [S: V] (s: S) -> ((), S) ; get::<S>().bind(put).run_state(s) ; ((), s) }
law!{ modify_modify [S: V, F: Fn(S) -> S + V, G: Fn(S) -> S + V] (f: F, g: G, s: S) -> ((), S) ; modify(f).bind(move |_| modify(g.clone())).run_state(s) ; ((), g(f(s))) }
law!{ modify_is_get_put [S: V, F: Fn(S) -> S + V] (f: F, s: S) -> ((), S) ; modify(f.clone()).run_state(s.clone()) ; get::<S>().bind(move |x| put(f(x))).run_state(s) }
law!{ try_run [S: V + Default, A: V, E: V, F: Fn(S) -> (Result<A, E>, S) + V] (f: F, s: S) -> (Result<A, (Vec<String>, E)>, S) ; { let (r, t) = State::new(f).try_run_state(s); (rc(r), t) } ; { let (r, t) = f(s); (match r { Ok(a) => Ok(a), Err(e) => Err((Vec::new(), e)) }, t) } }
law!{ try_run_ctx [S: V + Default, A: V, E: V, F: Fn(S) -> (Result<A, E>, S) + V] (f: F, s: S, c: String) -> (Result<A, (Vec<String>, E)>, S) ; { let (r, t) = State::new(f).try_run_state_with_context(s, c); (rc(r), t) } ; { let (r, t) = f(s); let k = c; (match r { Ok(a) => Ok(a), Err(e) => Err((one(k), e)) }, t) } }
law!{ try_eval [S: V + Default, A: V, E: V, F: Fn(S) -> (Result<A, E>, S) + V] (f: F, s: S) -> Result<A, (Vec<String>, E)> ; rc(State::new(f).try_eval_state(s)) ; match f(s).0 { Ok(a) => Ok(a), Err(e) => Err((Vec::new(), e)) } }
law!{ try_eval_ctx [S: V + Default, A: V, E: V, F: Fn(S) -> (Result<A, E>, S) + V] (f: F, s: S, c: String) -> Result<A, (Vec<String>, E)> ; rc(State::new(f).try_eval_state_with_context(s, c)) ; { let r = f(s).0; let k = c; match r { Ok(a) => Ok(a), Err(e) => Err((one(k), e)) } } }
law!{ try_exec [S: V + Default, A: V, E: V, F: Fn(S) -> (Result<A, E>, S) + V] (f: F, s: S) -> Result<S, (Vec<String>, E)> ; rc(State::new(f).try_exec_state(s)) ; { let (r, t) = f(s); match r { Ok(_) => Ok(t), Err(e) => Err((Vec::new(), e)) } } }
law!{ try_exec_ctx [S: V + Default, A: V, E: V, F: Fn(S) -> (Result<A, E>, S) + V] (f: F, s: S, c: String) -> Result<S, (Vec<String>, E)> ; rc(State::new(f).try_exec_state_with_context(s, c)) ; { let (r, t) = f(s); let k = c; match r { Ok(_) => Ok(t), Err(e) => Err((one(k), e)) } } }
law!{ from_state_t [S: V, A: V, F: Fn(S) -> (A, S) + V] (f: F, s: S) -> (A, S) ; State::from(StateT::<S, Id<(A, S)>, A>::new(move |s| Id::new(f(s)))).run_state(s) ; f(s) }
law!{ t_new_run [S: V, M: V, A: V, F: Fn(S) -> M + V] (f: F, s: S) -> M ; StateT::<S, M, A>::new(f).run_state(s) ; f(s) }
law!{ t_clone [S: V, M: V, A: V, F: Fn(S) -> M + V] (f: F, s: S) -> M ; StateT::<S, M, A>::new(f).clone().run_state(s) ; f(s) }
law!{ t_liftm [S: V, M: V, A: V] (m: M, s: S) -> M ; StateT::<S, M, A>::LiftM(m.clone()).run_state(s) ; m }
law!{ t_get [S: V, M: V, P: Fn((S, S)) -> M + V] (p: P, s: S) -> M ; StateT::<S, M, S>::get(p).run_state(s) ; p((s.clone(), s)) }
law!{ t_put [S: V, M: V, P: Fn((S, S)) -> M + V] (p: P, n: S, s: S) -> M ; StateT::<S, M, S>::put(n, p).run_state(s) ; p((n, s)) }
law!{ t_modify [S: V, M: V, F: Fn(S) -> S + V, P: Fn((S, ())) -> M + V] (f: F, p: P, s: S) -> M ; StateT::<S, M, ()>::modify(f, p).run_state(s) ; p((f(s), ())) }
law!{ t_pure [S: V, M: V, A: V, P: Fn((S, A)) -> M + V] (a: A, p: P, s: S) -> M ; StateT::<S, M, A>::pure(a, p).run_state(s) ; p((s, a)) }
law!{ t_exec [S: V, M: V, A: V, B, F: Fn(S) -> M + V, X: FnOnce(M) -> B] (f: F, x: X, s: S) -> B ; StateT::<S, M, A>::new(f).exec_state(s, x) ; x(f(s)) }
law!{ t_fmap_option [S: V, A: V, F: Fn(S) -> Option<(S, A)> + V, G: Fn(A) -> A + V] (f: F, g: G, s: S) -> Option<(S, A)> ; StateT::<S, Option<(S, A)>, A>::new(f).fmap_with(g, |m: Option<(S, A)>, k| m.map(|p| k(p))).run_state(s) ; match f(s) { Some((t, a)) => Some((t, g(a))), None => None } }
law!{ t_fmap_option_lift [S: V, A: V, G: Fn(A) -> A + V] (m: Option<(S, A)>, g: G, s: S) -> Option<(S, A)> ; StateT::<S, Option<(S, A)>, A>::LiftM(m.clone()).fmap_with(g.clone(), |m: Option<(S, A)>, k| m.map(|p| k(p))).run_state(s) ; match m { Some((t, a)) => Some((t, g(a))), None => None } }
law!{ t_bind_option [S: V, A: V, B: V, F: Fn(S) -> Option<(S, A)> + V, G: Fn(A, S) -> Option<(S, B)> + V] (f: F, g: G, s: S) -> Option<(S, B)> ; StateT::<S, Option<(S, A)>, A>::new(f).bind_with(move |a: A| { let g = g.clone(); StateT::<S, Option<(S, B)>, B>::new(move |s| g(a.clone(), s)) }, |m: Option<(S, A)>, k| m.and_then(|p| k(p))).run_state(s) ; match f(s) { Some((t, a)) => g(a, t), None => None } }
law!{ t_bind_option_lift [S: V, A: V, B: V, G: Fn(A, S) -> Option<(S, B)> + V] (m: Option<(S, A)>, g: G, s: S) -> Option<(S, B)> ; StateT::<S, Option<(S, A)>, A>::LiftM(m.clone()).bind_with({ let g = g.clone(); move |a: A| { let g = g.clone(); StateT::<S, Option<(S, B)>, B>::new(move |s| g(a.clone(), s)) } }, |m: Option<(S, A)>, k| m.and_then(|p| k(p))).run_state(s) ; match m { Some((t, a)) => g(a, t), None => None } }
law!{ t_bind_pure [S: V, A: V, B: V, G: Fn(A, S) -> Option<(S, B)> + V] (a: A, g: G, s: S) -> Option<(S, B)> ; StateT::<S, Option<(S, A)>, A>::Pure(a.clone()).bind_with({ let g = g.clone(); move |a: A| { let g = g.clone(); StateT::<S, Option<(S, B)>, B>::new(move |s| g(a.clone(), s)) } }, |m: Option<(S, A)>, k| m.and_then(|p| k(p))).run_state(s) ; g(a, s) }
law!{ t_apply [S: V, M: V, F: Fn(S) -> M + V, G: Fn(S) -> M + V, K: Fn(M, M) -> M + V] (f: F, g: G, k: K, s: S) -> M ; StateT::<S, M, ()>::new(f).apply::<(), (), _>(StateT::<S, M, ()>::new(g), k).run_state(s) ; { let a = f(s.clone()); let b = g(s); k(a, b) } }
law!{ t_apply_lift_left [S: V, M: V, G: Fn(S) -> M + V, K: Fn(M, M) -> M + V] (m: M, g: G, k: K, s: S) -> M ; StateT::<S, M, ()>::LiftM(m.clone()).apply::<(), (), _>(StateT::<S, M, ()>::new(g.clone()), k.clone()).run_state(s.clone()) ; { let b = g(s); k(m, b) } }
law!{ t_apply_lift_right [S: V, M: V, G: Fn(S) -> M + V, K: Fn(M, M) -> M + V] (m: M, g: G, k: K, s: S) -> M ; StateT::<S, M, ()>::new(g.clone()).apply::<(), (), _>(StateT::<S, M, ()>::LiftM(m.clone()), k.clone()).run_state(s.clone()) ; { let b = g(s); k(b, m) } }
law!{ t_apply_lift_both [S: V, M: V, K: Fn(M, M) -> M + V] (m: M, n: M, k: K, s: S) -> M ; StateT::<S, M, ()>::LiftM(m.clone()).apply::<(), (), _>(StateT::<S, M, ()>::LiftM(n.clone()), k.clone()).run_state(s) ; k(m, n) }
law!{ t_combine_value [S: V, A: V, F: Fn(S) -> Option<(S, A)> + V, G: Fn(S) -> Option<(S, A)> + V, K: Fn(A, A) -> A + V] (f: F, g: G, k: K, s: S) -> Option<A> ; match StateT::<S, Option<(S, A)>, A>::new(f).combine_with(&StateT::<S, Option<(S, A)>, A>::new(g), k, |m: Option<(S, A)>, n: Option<(S, A)>, c| match (m, n) { (Some(p), Some(q)) => Some(c(p, q)), _ => None }).run_state(s) { Some((_, v)) => Some(v), None => None } ; { let m = f(s.clone()); let n = g(s); match (m, n) { (Some((_, a)), Some((_, b))) => Some(k(a, b)), _ => None } } }
law!{ t_join [S: V, M: V, N: V, A: V, F: Fn(S) -> M + V, J: Fn(M) -> N + V] (f: F, j: J, s: S) -> N ; StateT::<S, M, A>::new(f).join(j).run_state(s) ; j(f(s)) }
law!{ t_join_lift [S: V, M: V, N: V, A: V, J: Fn(M) -> N + V] (m: M, j: J, s: S) -> N ; StateT::<S, M, A>::LiftM(m.clone()).join(j.clone()).run_state(s) ; j(m) }
law!{ t_lift [S: V, A: V] (m: Option<(S, A)>, s: S) -> Option<(S, A)> ; <StateT<S, Option<(S, A)>, A> as MonadTransformer>::lift(m.clone()).run_state(s) ; m }
law!{ t_try_run [S: V, A: V, E: V, F: Fn(S) -> Result<(S, A), E> + V] (f: F, s: S) -> Result<(S, A), (Vec<String>, E)> ; rc(StateT::<S, Result<(S, A), E>, A>::new(f).try_run_state(s)) ; match f(s) { Ok(p) => Ok(p), Err(e) => Err((Vec::new(), e)) } }
law!{ t_try_run_lift [S: V, A: V, E: V] (m: Result<(S, A), E>, s: S) -> Result<(S, A), (Vec<String>, E)> ; rc(StateT::<S, Result<(S, A), E>, A>::LiftM(m.clone()).try_run_state(s)) ; match m { Ok(p) => Ok(p), Err(e) => Err((Vec::new(), e)) } }
law!{ t_try_run_ctx [S: V, A: V, E: V, F: Fn(S) -> Result<(S, A), E> + V] (f: F, s: S, c: String) -> Result<(S, A), (Vec<String>, E)> ; rc(StateT::<S, Result<(S, A), E>, A>::new(f).try_run_state_with_context(s, c)) ; { let k = c; match f(s) { Ok(p) => Ok(p), Err(e) => Err((one(k), e)) } } }
law!{ t_try_run_ctx_lift [S: V, A: V, E: V] (m: Result<(S, A), E>, s: S, c: String) -> Result<(S, A), (Vec<String>, E)> ; rc(StateT::<S, Result<(S, A), E>, A>::LiftM(m.clone()).try_run_state_with_context(s, c)) ; { let k = c; match m { Ok(p) => Ok(p), Err(e) => Err((one(k), e)) } } }
law!{ t_map_error [S: V, A: V, E: V, G: V, F: Fn(S) -> Result<(S, A), E> + V, K: Fn(E) -> G + V] (f: F, k: K, s: S) -> Result<(S, A), G> ; StateT::<S, Result<(S, A), E>, A>::new(f).map_error(k).run_state(s) ; match f(s) { Ok(p) => Ok(p), Err(e) => Err(k(e)) } }
law!{ t_map_error_lift [S: V, A: V, E: V, G: V, K: Fn(E) -> G + V] (m: Result<(S, A), E>, k: K, s: S) -> Result<(S, A), G> ; StateT::<S, Result<(S, A), E>, A>::LiftM(m.clone()).map_error(k.clone()).run_state(s) ; match m { Ok(p) => Ok(p), Err(e) => Err(k(e)) } }
law!{ t_try_eval [S: V, A: V, E: V, F: Fn(S) -> Result<(S, A), E> + V] (f: F, s: S) -> Result<A, (Vec<String>, E)> ; rc(StateT::<S, Result<(S, A), E>, A>::new(f).try_eval_state(s)) ; match f(s) { Ok(p) => Ok(p.1), Err(e) => Err((Vec::new(), e)) } }
law!{ t_try_eval_ctx [S: V, A: V, E: V, F: Fn(S) -> Result<(S, A), E> + V] (f: F, s: S, c: String) -> Result<A, (Vec<String>, E)> ; rc(StateT::<S, Result<(S, A), E>, A>::new(f).try_eval_state_with_context(s, c)) ; { let k = c; match f(s) { Ok(p) => Ok(p.1), Err(e) => Err((one(k), e)) } } }
law!{ t_try_exec [S: V, A: V, E: V, F: Fn(S) -> Result<(S, A), E> + V] (f: F, s: S) -> Result<S, (Vec<String>, E)> ; rc(StateT::<S, Result<(S, A), E>, A>::new(f).try_exec_state(s)) ; match f(s) { Ok(p) => Ok(p.0), Err(e) => Err((Vec::new(), e)) } }
law!{ t_to_state [S: V, A: V, F: Fn(S) -> (S, A) + V] (f: F, s: S) -> (A, S) ; StateT::<S, Id<(S, A)>, A>::new(move |s| Id::new(f(s))).to_state().run_state(s) ; { let (t, a) = f(s); (a, t) } }
law!{ t_from_state [S: V, A: V, F: Fn(S) -> (A, S) + V] (f: F, s: S) -> (S, A) ; StateT::<S, Id<(S, A)>, A>::from_state(State::new(f)).run_state(s).into_inner() ; { let (a, t) = f(s); (t, a) } }
law!{ t_clone_run [S: V, A: V, F: Fn(S) -> Option<(S, A)> + V] (f: F, s: S) -> Option<(S, A)> ; StateT::<S, Option<(S, A)>, A>::new(f).clone().run_state(s) ; f(s) }
law!{ new_run__again [S: V, A: V, F: Fn(S) -> (A, S) + V] (f: F, s: S, z_s: S) -> ((A, S), (A, S)) ; { let m0 = State::new(f); let y1 = m0.run_state(s.clone()); let y2 = m0.run_state(z_s); (y1, y2) } ; { let y1 = { let f = f.clone(); let s = s.clone(); f(s) }; let y2 = { let s = z_s; f(s) }; (y1, y2) } }
law!{ clone_run__again [S: V, A: V, F: Fn(S) -> (A, S) + V] (f: F, s: S, z_s: S) -> ((A, S), (A, S)) ; { let m0 = State::new(f).clone(); let y1 = m0.run_state(s.clone()); let y2 = m0.run_state(z_s); (y1, y2) } ; { let y1 = { let f = f.clone(); let s = s.clone(); f(s) }; let y2 = { let s = z_s; f(s) }; (y1, y2) } }
law!{ eval_state__again [S: V, A: V, F: Fn(S) -> (A, S) + V] (f: F, s: S, z_s: S) -> (A, A) ; { let m0 = State::new(f); let y1 = m0.eval_state(s.clone()); let y2 = m0.eval_state(z_s); (y1, y2) } ; { let y1 = { let f = f.clone(); let s = s.clone(); f(s).0 }; let y2 = { let s = z_s; f(s).0 }; (y1, y2) } }
law!{ exec_state__again [S: V, A: V, F: Fn(S) -> (A, S) + V] (f: F, s: S, z_s: S) -> (S, S) ; { let m0 = State::new(f); let y1 = m0.exec_state(s.clone()); let y2 = m0.exec_state(z_s); (y1, y2) } ; { let y1 = { let f = f.clone(); let s = s.clone(); f(s).1 }; let y2 = { let s = z_s; f(s).1 }; (y1, y2) } }
law!{ exec_pure__again [S: V, A: V, F: Fn(S) -> (A, S) + V] (f: F, s: S, z_s: S) -> (S, S) ; { let m0 = State::new(f); let y1 = m0.exec_pure(s.clone()); let y2 = m0.exec_pure(z_s); (y1, y2) } ; { let y1 = { let f = f.clone(); let s = s.clone(); f(s).1 }; let y2 = { let s = z_s; f(s).1 }; (y1, y2) } }
law!{ pure__again [S: V, A: V] (a: A, s: S, z_s: S) -> ((A, S), (A, S)) ; { let m0 = State::<S, A>::pure(a); let y1 = m0.run_state(s.clone()); let y2 = m0.run_state(z_s); (y1, y2) } ; { let y1 = { let a = a.clone(); let s = s.clone(); (a, s) }; let y2 = { let s = z_s; (a, s) }; (y1, y2) } }
law!{ fmap__again [S: V, A: V, B: V, F: Fn(S) -> (A, S) + V, G: Fn(A) -> B + V] (f: F, g: G, s: S, z_s: S) -> ((B, S), (B, S)) ; { let m0 = State::new(f).fmap(g); let y1 = m0.run_state(s.clone()); let y2 = m0.run_state(z_s); (y1, y2) } ; { let y1 = { let f = f.clone(); let g = g.clone(); let s = s.clone(); { let (a, t) = f(s); (g(a), t) } }; let y2 = { let s = z_s; { let (a, t) = f(s); (g(a), t) } }; (y1, y2) } }
law!{ fmap_any__again [S: V, A: V, B: V, G: Fn(A) -> B + V] (m: State<S, A>, g: G, s: S, z_s: S) -> ((B, S), (B, S)) ; { let m0 = m.clone().fmap(g.clone()); let y1 = m0.run_state(s.clone()); let y2 = m0.run_state(z_s); (y1, y2) } ; { let y1 = { let m = m.clone(); let g = g.clone(); let s = s.clone(); { let (a, t) = m.run_state(s); (g(a), t) } }; let y2 = { let s = z_s; { let (a, t) = m.run_state(s); (g(a), t) } }; (y1, y2) } }
law!{ bind__again [S: V, A: V, B: V, F: Fn(S) -> (A, S) + V, G: Fn(A) -> State<S, B> + V] (f: F, g: G, s: S, z_s: S) -> ((B, S), (B, S)) ; { let m0 = State::new(f).bind(g); let y1 = m0.run_state(s.clone()); let y2 = m0.run_state(z_s); (y1, y2) } ; { let y1 = { let f = f.clone(); let g = g.clone(); let s = s.clone(); { let (a, t) = f(s); g(a).run_state(t) } }; let y2 = { let s = z_s; { let (a, t) = f(s); g(a).run_state(t) } }; (y1, y2) } }
law!{ bind_any__again [S: V, A: V, B: V, G: Fn(A) -> State<S, B> + V] (m: State<S, A>, g: G, s: S, z_s: S) -> ((B, S), (B, S)) ; { let m0 = m.clone().bind(g.clone()); let y1 = m0.run_state(s.clone()); let y2 = m0.run_state(z_s); (y1, y2) } ; { let y1 = { let m = m.clone(); let g = g.clone(); let s = s.clone(); { let (a, t) = m.run_state(s); g(a).run_state(t) } }; let y2 = { let s = z_s; { let (a, t) = m.run_state(s); g(a).run_state(t) } }; (y1, y2) } }
law!{ apply__again [S: V, B: V, C: V, K: Fn(B) -> C + V, F: Fn(S) -> (K, S) + V, G: Fn(S) -> (B, S) + V] (f: F, g: G, s: S, z_s: S) -> ((C, S), (C, S)) ; { let m0 = State::new(f).apply(State::new(g)); let y1 = m0.run_state(s.clone()); let y2 = m0.run_state(z_s); (y1, y2) } ; { let y1 = { let f = f.clone(); let g = g.clone(); let s = s.clone(); { let (k, t) = f(s); let (b, u) = g(t); (k(b), u) } }; let y2 = { let s = z_s; { let (k, t) = f(s); let (b, u) = g(t); (k(b), u) } }; (y1, y2) } }
law!{ left_identity__again [S: V, A: V, B: V, G: Fn(A) -> State<S, B> + V] (a: A, g: G, s: S, z_s: S) -> ((B, S), (B, S)) ; { let m0 = State::<S, A>::pure(a.clone()).bind(g.clone()); let y1 = m0.run_state(s.clone()); let y2 = m0.run_state(z_s); (y1, y2) } ; { let y1 = { let a = a.clone(); let g = g.clone(); let s = s.clone(); g(a).run_state(s) }; let y2 = { let s = z_s; g(a).run_state(s) }; (y1, y2) } }
law!{ right_identity__again [S: V, A: V, F: Fn(S) -> (A, S) + V] (f: F, s: S, z_s: S) -> ((A, S), (A, S)) ; { let m0 = State::new(f).bind(|a| State::pure(a)); let y1 = m0.run_state(s.clone()); let y2 = m0.run_state(z_s); (y1, y2) } ; { let y1 = { let f = f.clone(); let s = s.clone(); f(s) }; let y2 = { let s = z_s; f(s) }; (y1, y2) } }
law!{ associativity__again [S: V, A: V, B: V, C: V, F: Fn(S) -> (A, S) + V, G: Fn(A) -> State<S, B> + V, H: Fn(B) -> State<S, C> + V] (f: F, g: G, h: H, s: S, z_s: S) -> ((C, S), (C, S)) ; { let m0 = State::new(f.clone()).bind(g.clone()).bind(h.clone()); let y1 = m0.run_state(s.clone()); let y2 = m0.run_state(z_s); (y1, y2) } ; { let y1 = { let f = f.clone(); let g = g.clone(); let h = h.clone(); let s = s.clone(); State::new(f).bind(move |a| { let h = h.clone(); g(a).bind(h) }).run_state(s) }; let y2 = { let s = z_s; State::new(f).bind(move |a| { let h = h.clone(); g(a).bind(h) }).run_state(s) }; (y1, y2) } }
law!{ three_steps__again [S: V, A: V, B: V, C: V, F: Fn(S) -> (A, S) + V, G: Fn(A, S) -> (B, S) + V, H: Fn(B, S) -> (C, S) + V] (f: F, g: G, h: H, s: S, z_s: S) -> ((C, S), (C, S)) ; { let m0 = State::new(f).bind(move |a| { let g = g.clone(); State::new(move |s| g(a.clone(), s)) }).bind(move |b| { let h = h.clone(); State::new(move |s| h(b.clone(), s)) }); let y1 = m0.run_state(s.clone()); let y2 = m0.run_state(z_s); (y1, y2) } ; { let y1 = { let f = f.clone(); let g = g.clone(); let h = h.clone(); let s = s.clone(); { let (a, t) = f(s); let (b, u) = g(a, t); h(b, u) } }; let y2 = { let s = z_s; { let (a, t) = f(s); let (b, u) = g(a, t); h(b, u) } }; (y1, y2) } }
law!{ get___again [S: V] (s: S, z_s: S) -> ((S, S), (S, S)) ; { let m0 = get::<S>(); let y1 = m0.run_state(s.clone()); let y2 = m0.run_state(z_s); (y1, y2) } ; { let y1 = { let s = s.clone(); (s.clone(), s) }; let y2 = { let s = z_s; (s.clone(), s) }; (y1, y2) } }
law!{ put___again [S: V] (n: S, s: S, z_s: S) -> (((), S), ((), S)) ; { let m0 = put(n); let y1 = m0.run_state(s.clone()); let y2 = m0.run_state(z_s); (y1, y2) } ; { let y1 = { let n = n.clone(); let s = s.clone(); ((), n) }; let y2 = { let s = z_s; ((), n) }; (y1, y2) } }
law!{ modify___again [S: V, F: Fn(S) -> S + V] (f: F, s: S, z_s: S) -> (((), S), ((), S)) ; { let m0 = modify(f); let y1 = m0.run_state(s.clone()); let y2 = m0.run_state(z_s); (y1, y2) } ; { let y1 = { let f = f.clone(); let s = s.clone(); ((), f(s)) }; let y2 = { let s = z_s; ((), f(s)) }; (y1, y2) } }
law!{ put_get__again [S: V] (n: S, s: S, z_s: S) -> ((S, S), (S, S)) ; { let m0 = put(n).bind(|_| get::<S>()); let y1 = m0.run_state(s.clone()); let y2 = m0.run_state(z_s); (y1, y2) } ; { let y1 = { let n = n.clone(); let s = s.clone(); (n.clone(), n) }; let y2 = { let s = z_s; (n.clone(), n) }; (y1, y2) } }
law!{ put_put__again [S: V] (n: S, m: S, s: S, z_s: S) -> (((), S), ((), S)) ; { let m0 = put(n).bind(move |_| put(m.clone())); let y1 = m0.run_state(s.clone()); let y2 = m0.run_state(z_s); (y1, y2) } ; { let y1 = { let n = n.clone(); let m = m.clone(); let s = s.clone(); ((), m) }; let y2 = { let s = z_s; ((), m) }; (y1, y2) } }
law!{ get_put__again [S: V] (s: S, z_s: S) -> (((), S), ((), S)) ; { let m0 = get::<S>().bind(put); let y1 = m0.run_state(s.clone()); let y2 = m0.run_state(z_s); (y1, y2) } ; { let y1 = { let s = s.clone(); ((), s) }; let y2 = { let s = z_s; ((), s) }; (y1, y2) } }
law!{ modify_modify__again [S: V, F: Fn(S) -> S + V, G: Fn(S) -> S + V] (f: F, g: G, s: S, z_s: S) -> (((), S), ((), S)) ; { let m0 = modify(f).bind(move |_| modify(g.clone())); let y1 = m0.run_state(s.clone()); let y2 = m0.run_state(z_s); (y1, y2) } ; { let y1 = { let f = f.clone(); let g = g.clone(); let s = s.clone(); ((), g(f(s))) }; let y2 = { let s = z_s; ((), g(f(s))) }; (y1, y2) } }
law!{ modify_is_get_put__again [S: V, F: Fn(S) -> S + V] (f: F, s: S, z_s: S) -> (((), S), ((), S)) ; { let m0 = modify(f.clone()); let y1 = m0.run_state(s.clone()); let y2 = m0.run_state(z_s); (y1, y2) } ; { let y1 = { let f = f.clone(); let s = s.clone(); get::<S>().bind(move |x| put(f(x))).run_state(s) }; let y2 = { let s = z_s; get::<S>().bind(move |x| put(f(x))).run_state(s) }; (y1, y2) } }
law!{ try_eval__again [S: V + Default, A: V, E: V, F: Fn(S) -> (Result<A, E>, S) + V] (f: F, s: S, z_s: S) -> (Result<A, (Vec<String>, E)>, Result<A, (Vec<String>, E)>) ; { let m0 = State::new(f); let y1 = rc(m0.try_eval_state(s.clone())); let y2 = rc(m0.try_eval_state(z_s)); (y1, y2) } ; { let y1 = { let f = f.clone(); let s = s.clone(); match f(s).0 { Ok(a) => Ok(a), Err(e) => Err((Vec::new(), e)) } }; let y2 = { let s = z_s; match f(s).0 { Ok(a) => Ok(a), Err(e) => Err((Vec::new(), e)) } }; (y1, y2) } }
law!{ try_eval_ctx__again [S: V + Default, A: V, E: V, F: Fn(S) -> (Result<A, E>, S) + V] (f: F, s: S, c: String, z_s: S) -> (Result<A, (Vec<String>, E)>, Result<A, (Vec<String>, E)>) ; { let m0 = State::new(f); let y1 = rc(m0.try_eval_state_with_context(s.clone(), c.clone())); let y2 = rc(m0.try_eval_state_with_context(z_s, c)); (y1, y2) } ; { let y1 = { let f = f.clone(); let s = s.clone(); let c = c.clone(); { let r = f(s).0; let k = c; match r { Ok(a) => Ok(a), Err(e) => Err((one(k), e)) } } }; let y2 = { let s = z_s; { let r = f(s).0; let k = c; match r { Ok(a) => Ok(a), Err(e) => Err((one(k), e)) } } }; (y1, y2) } }
law!{ try_exec__again [S: V + Default, A: V, E: V, F: Fn(S) -> (Result<A, E>, S) + V] (f: F, s: S, z_s: S) -> (Result<S, (Vec<String>, E)>, Result<S, (Vec<String>, E)>) ; { let m0 = State::new(f); let y1 = rc(m0.try_exec_state(s.clone())); let y2 = rc(m0.try_exec_state(z_s)); (y1, y2) } ; { let y1 = { let f = f.clone(); let s = s.clone(); { let (r, t) = f(s); match r { Ok(_) => Ok(t), Err(e) => Err((Vec::new(), e)) } } }; let y2 = { let s = z_s; { let (r, t) = f(s); match r { Ok(_) => Ok(t), Err(e) => Err((Vec::new(), e)) } } }; (y1, y2) } }
law!{ try_exec_ctx__again [S: V + Default, A: V, E: V, F: Fn(S) -> (Result<A, E>, S) + V] (f: F, s: S, c: String, z_s: S) -> (Result<S, (Vec<String>, E)>, Result<S, (Vec<String>, E)>) ; { let m0 = State::new(f); let y1 = rc(m0.try_exec_state_with_context(s.clone(), c.clone())); let y2 = rc(m0.try_exec_state_with_context(z_s, c)); (y1, y2) } ; { let y1 = { let f = f.clone(); let s = s.clone(); let c = c.clone(); { let (r, t) = f(s); let k = c; match r { Ok(_) => Ok(t), Err(e) => Err((one(k), e)) } } }; let y2 = { let s = z_s; { let (r, t) = f(s); let k = c; match r { Ok(_) => Ok(t), Err(e) => Err((one(k), e)) } } }; (y1, y2) } }
law!{ from_state_t__again [S: V, A: V, F: Fn(S) -> (A, S) + V] (f: F, s: S, z_s: S) -> ((A, S), (A, S)) ; { let m0 = State::from(StateT::<S, Id<(A, S)>, A>::new(move |s| Id::new(f(s)))); let y1 = m0.run_state(s.clone()); let y2 = m0.run_state(z_s); (y1, y2) } ; { let y1 = { let f = f.clone(); let s = s.clone(); f(s) }; let y2 = { let s = z_s; f(s) }; (y1, y2) } }
law!{ t_new_run__again [S: V, M: V, A: V, F: Fn(S) -> M + V] (f: F, s: S, z_s: S) -> (M, M) ; { let m0 = StateT::<S, M, A>::new(f); let y1 = m0.run_state(s.clone()); let y2 = m0.run_state(z_s); (y1, y2) } ; { let y1 = { let f = f.clone(); let s = s.clone(); f(s) }; let y2 = { let s = z_s; f(s) }; (y1, y2) } }
law!{ t_clone__again [S: V, M: V, A: V, F: Fn(S) -> M + V] (f: F, s: S, z_s: S) -> (M, M) ; { let m0 = StateT::<S, M, A>::new(f).clone(); let y1 = m0.run_state(s.clone()); let y2 = m0.run_state(z_s); (y1, y2) } ; { let y1 = { let f = f.clone(); let s = s.clone(); f(s) }; let y2 = { let s = z_s; f(s) }; (y1, y2) } }
law!{ t_liftm__again [S: V, M: V, A: V] (m: M, s: S, z_s: S) -> (M, M) ; { let m0 = StateT::<S, M, A>::LiftM(m.clone()); let y1 = m0.run_state(s.clone()); let y2 = m0.run_state(z_s); (y1, y2) } ; { let y1 = { let m = m.clone(); let s = s.clone(); m }; let y2 = { let s = z_s; m }; (y1, y2) } }
law!{ t_get__again [S: V, M: V, P: Fn((S, S)) -> M + V] (p: P, s: S, z_s: S) -> (M, M) ; { let m0 = StateT::<S, M, S>::get(p); let y1 = m0.run_state(s.clone()); let y2 = m0.run_state(z_s); (y1, y2) } ; { let y1 = { let p = p.clone(); let s = s.clone(); p((s.clone(), s)) }; let y2 = { let s = z_s; p((s.clone(), s)) }; (y1, y2) } }
law!{ t_put__again [S: V, M: V, P: Fn((S, S)) -> M + V] (p: P, n: S, s: S, z_s: S) -> (M, M) ; { let m0 = StateT::<S, M, S>::put(n, p); let y1 = m0.run_state(s.clone()); let y2 = m0.run_state(z_s); (y1, y2) } ; { let y1 = { let p = p.clone(); let n = n.clone(); let s = s.clone(); p((n, s)) }; let y2 = { let s = z_s; p((n, s)) }; (y1, y2) } }
law!{ t_modify__again [S: V, M: V, F: Fn(S) -> S + V, P: Fn((S, ())) -> M + V] (f: F, p: P, s: S, z_s: S) -> (M, M) ; { let m0 = StateT::<S, M, ()>::modify(f, p); let y1 = m0.run_state(s.clone()); let y2 = m0.run_state(z_s); (y1, y2) } ; { let y1 = { let f = f.clone(); let p = p.clone(); let s = s.clone(); p((f(s), ())) }; let y2 = { let s = z_s; p((f(s), ())) }; (y1, y2) } }
law!{ t_pure__again [S: V, M: V, A: V, P: Fn((S, A)) -> M + V] (a: A, p: P, s: S, z_s: S) -> (M, M) ; { let m0 = StateT::<S, M, A>::pure(a, p); let y1 = m0.run_state(s.clone()); let y2 = m0.run_state(z_s); (y1, y2) } ; { let y1 = { let a = a.clone(); let p = p.clone(); let s = s.clone(); p((s, a)) }; let y2 = { let s = z_s; p((s, a)) }; (y1, y2) } }
law!{ t_exec__again [S: V, M: V, A: V, B, F: Fn(S) -> M + V, X: FnOnce(M) -> B + Clone] (f: F, x: X, s: S, z_s: S) -> (B, B) ; { let m0 = StateT::<S, M, A>::new(f); let y1 = m0.exec_state(s.clone(), x.clone()); let y2 = m0.exec_state(z_s, x); (y1, y2) } ; { let y1 = { let f = f.clone(); let x = x.clone(); let s = s.clone(); x(f(s)) }; let y2 = { let s = z_s; x(f(s)) }; (y1, y2) } }
law!{ t_fmap_option__again [S: V, A: V, F: Fn(S) -> Option<(S, A)> + V, G: Fn(A) -> A + V] (f: F, g: G, s: S, z_s: S) -> (Option<(S, A)>, Option<(S, A)>) ; { let m0 = StateT::<S, Option<(S, A)>, A>::new(f).fmap_with(g, |m: Option<(S, A)>, k| m.map(|p| k(p))); let y1 = m0.run_state(s.clone()); let y2 = m0.run_state(z_s); (y1, y2) } ; { let y1 = { let f = f.clone(); let g = g.clone(); let s = s.clone(); match f(s) { Some((t, a)) => Some((t, g(a))), None => None } }; let y2 = { let s = z_s; match f(s) { Some((t, a)) => Some((t, g(a))), None => None } }; (y1, y2) } }
vlaw!{ t_fmap_option_lift__again [S: V, A: V, G: Fn(A) -> A + V] (m: Option<(S, A)>, g: G, s: S, z_s: S) -> (Option<(S, A)>, Option<(S, A)>) ; { let m0 = StateT::<S, Option<(S, A)>, A>::LiftM(m.clone()).fmap_with(g.clone(), |m: Option<(S, A)>, k| m.map(|p| k(p))); let y1 = m0.run_state(s.clone()); let y2 = m0.run_state(z_s); (y1, y2) } ; { let y1 = { let m = m.clone(); let g = g.clone(); let s = s.clone(); match m { Some((t, a)) => Some((t, g(a))), None => None } }; let y2 = { let s = z_s; match m { Some((t, a)) => Some((t, g(a))), None => None } }; (y1, y2) } }
law!{ t_bind_option__again [S: V, A: V, B: V, F: Fn(S) -> Option<(S, A)> + V, G: Fn(A, S) -> Option<(S, B)> + V] (f: F, g: G, s: S, z_s: S) -> (Option<(S, B)>, Option<(S, B)>) ; { let m0 = StateT::<S, Option<(S, A)>, A>::new(f).bind_with(move |a: A| { let g = g.clone(); StateT::<S, Option<(S, B)>, B>::new(move |s| g(a.clone(), s)) }, |m: Option<(S, A)>, k| m.and_then(|p| k(p))); let y1 = m0.run_state(s.clone()); let y2 = m0.run_state(z_s); (y1, y2) } ; { let y1 = { let f = f.clone(); let g = g.clone(); let s = s.clone(); match f(s) { Some((t, a)) => g(a, t), None => None } }; let y2 = { let s = z_s; match f(s) { Some((t, a)) => g(a, t), None => None } }; (y1, y2) } }
law!{ t_bind_option_lift__again [S: V, A: V, B: V, G: Fn(A, S) -> Option<(S, B)> + V] (m: Option<(S, A)>, g: G, s: S, z_s: S) -> (Option<(S, B)>, Option<(S, B)>) ; { let m0 = StateT::<S, Option<(S, A)>, A>::LiftM(m.clone()).bind_with({ let g = g.clone(); move |a: A| { let g = g.clone(); StateT::<S, Option<(S, B)>, B>::new(move |s| g(a.clone(), s)) } }, |m: Option<(S, A)>, k| m.and_then(|p| k(p))); let y1 = m0.run_state(s.clone()); let y2 = m0.run_state(z_s); (y1, y2) } ; { let y1 = { let m = m.clone(); let g = g.clone(); let s = s.clone(); match m { Some((t, a)) => g(a, t), None => None } }; let y2 = { let s = z_s; match m { Some((t, a)) => g(a, t), None => None } }; (y1, y2) } }
law!{ t_bind_pure__again [S: V, A: V, B: V, G: Fn(A, S) -> Option<(S, B)> + V] (a: A, g: G, s: S, z_s: S) -> (Option<(S, B)>, Option<(S, B)>) ; { let m0 = StateT::<S, Option<(S, A)>, A>::Pure(a.clone()).bind_with({ let g = g.clone(); move |a: A| { let g = g.clone(); StateT::<S, Option<(S, B)>, B>::new(move |s| g(a.clone(), s)) } }, |m: Option<(S, A)>, k| m.and_then(|p| k(p))); let y1 = m0.run_state(s.clone()); let y2 = m0.run_state(z_s); (y1, y2) } ; { let y1 = { let a = a.clone(); let g = g.clone(); let s = s.clone(); g(a, s) }; let y2 = { let s = z_s; g(a, s) }; (y1, y2) } }
law!{ t_apply__again [S: V, M: V, F: Fn(S) -> M + V, G: Fn(S) -> M + V, K: Fn(M, M) -> M + V] (f: F, g: G, k: K, s: S, z_s: S) -> (M, M) ; { let m0 = StateT::<S, M, ()>::new(f).apply::<(), (), _>(StateT::<S, M, ()>::new(g), k); let y1 = m0.run_state(s.clone()); let y2 = m0.run_state(z_s); (y1, y2) } ; { let y1 = { let f = f.clone(); let g = g.clone(); let k = k.clone(); let s = s.clone(); { let a = f(s.clone()); let b = g(s); k(a, b) } }; let y2 = { let s = z_s; { let a = f(s.clone()); let b = g(s); k(a, b) } }; (y1, y2) } }
law!{ t_apply_lift_left__again [S: V, M: V, G: Fn(S) -> M + V, K: Fn(M, M) -> M + V] (m: M, g: G, k: K, s: S, z_s: S) -> (M, M) ; { let m0 = StateT::<S, M, ()>::LiftM(m.clone()).apply::<(), (), _>(StateT::<S, M, ()>::new(g.clone()), k.clone()); let y1 = m0.run_state(s.clone()); let y2 = m0.run_state(z_s); (y1, y2) } ; { let y1 = { let m = m.clone(); let g = g.clone(); let k = k.clone(); let s = s.clone(); { let b = g(s); k(m, b) } }; let y2 = { let s = z_s; { let b = g(s); k(m, b) } }; (y1, y2) } }
law!{ t_apply_lift_right__again [S: V, M: V, G: Fn(S) -> M + V, K: Fn(M, M) -> M + V] (m: M, g: G, k: K, s: S, z_s: S) -> (M, M) ; { let m0 = StateT::<S, M, ()>::new(g.clone()).apply::<(), (), _>(StateT::<S, M, ()>::LiftM(m.clone()), k.clone()); let y1 = m0.run_state(s.clone()); let y2 = m0.run_state(z_s); (y1, y2) } ; { let y1 = { let m = m.clone(); let g = g.clone(); let k = k.clone(); let s = s.clone(); { let b = g(s); k(b, m) } }; let y2 = { let s = z_s; { let b = g(s); k(b, m) } }; (y1, y2) } }
vlaw!{ t_apply_lift_both__again [S: V, M: V, K: Fn(M, M) -> M + V] (m: M, n: M, k: K, s: S, z_s: S) -> (M, M) ; { let m0 = StateT::<S, M, ()>::LiftM(m.clone()).apply::<(), (), _>(StateT::<S, M, ()>::LiftM(n.clone()), k.clone()); let y1 = m0.run_state(s.clone()); let y2 = m0.run_state(z_s); (y1, y2) } ; { let y1 = { let m = m.clone(); let n = n.clone(); let k = k.clone(); let s = s.clone(); k(m, n) }; let y2 = { let s = z_s; k(m, n) }; (y1, y2) } }
law!{ t_join__again [S: V, M: V, N: V, A: V, F: Fn(S) -> M + V, J: Fn(M) -> N + V] (f: F, j: J, s: S, z_s: S) -> (N, N) ; { let m0 = StateT::<S, M, A>::new(f).join(j); let y1 = m0.run_state(s.clone()); let y2 = m0.run_state(z_s); (y1, y2) } ; { let y1 = { let f = f.clone(); let j = j.clone(); let s = s.clone(); j(f(s)) }; let y2 = { let s = z_s; j(f(s)) }; (y1, y2) } }
vlaw!{ t_join_lift__again [S: V, M: V, N: V, A: V, J: Fn(M) -> N + V] (m: M, j: J, s: S, z_s: S) -> (N, N) ; { let m0 = StateT::<S, M, A>::LiftM(m.clone()).join(j.clone()); let y1 = m0.run_state(s.clone()); let y2 = m0.run_state(z_s); (y1, y2) } ; { let y1 = { let m = m.clone(); let j = j.clone(); let s = s.clone(); j(m) }; let y2 = { let s = z_s; j(m) }; (y1, y2) } }
law!{ t_lift__again [S: V, A: V] (m: Option<(S, A)>, s: S, z_s: S) -> (Option<(S, A)>, Option<(S, A)>) ; { let m0 = <StateT<S, Option<(S, A)>, A> as MonadTransformer>::lift(m.clone()); let y1 = m0.run_state(s.clone()); let y2 = m0.run_state(z_s); (y1, y2) } ; { let y1 = { let m = m.clone(); let s = s.clone(); m }; let y2 = { let s = z_s; m }; (y1, y2) } }
law!{ t_try_run__again [S: V, A: V, E: V, F: Fn(S) -> Result<(S, A), E> + V] (f: F, s: S, z_s: S) -> (Result<(S, A), (Vec<String>, E)>, Result<(S, A), (Vec<String>, E)>) ; { let m0 = StateT::<S, Result<(S, A), E>, A>::new(f); let y1 = rc(m0.try_run_state(s.clone())); let y2 = rc(m0.try_run_state(z_s)); (y1, y2) } ; { let y1 = { let f = f.clone(); let s = s.clone(); match f(s) { Ok(p) => Ok(p), Err(e) => Err((Vec::new(), e)) } }; let y2 = { let s = z_s; match f(s) { Ok(p) => Ok(p), Err(e) => Err((Vec::new(), e)) } }; (y1, y2) } }
law!{ t_try_run_lift__again [S: V, A: V, E: V] (m: Result<(S, A), E>, s: S, z_s: S) -> (Result<(S, A), (Vec<String>, E)>, Result<(S, A), (Vec<String>, E)>) ; { let m0 = StateT::<S, Result<(S, A), E>, A>::LiftM(m.clone()); let y1 = rc(m0.try_run_state(s.clone())); let y2 = rc(m0.try_run_state(z_s)); (y1, y2) } ; { let y1 = { let m = m.clone(); let s = s.clone(); match m { Ok(p) => Ok(p), Err(e) => Err((Vec::new(), e)) } }; let y2 = { let s = z_s; match m { Ok(p) => Ok(p), Err(e) => Err((Vec::new(), e)) } }; (y1, y2) } }
law!{ t_try_run_ctx__again [S: V, A: V, E: V, F: Fn(S) -> Result<(S, A), E> + V] (f: F, s: S, c: String, z_s: S) -> (Result<(S, A), (Vec<String>, E)>, Result<(S, A), (Vec<String>, E)>) ; { let m0 = StateT::<S, Result<(S, A), E>, A>::new(f); let y1 = rc(m0.try_run_state_with_context(s.clone(), c.clone())); let y2 = rc(m0.try_run_state_with_context(z_s, c)); (y1, y2) } ; { let y1 = { let f = f.clone(); let s = s.clone(); let c = c.clone(); { let k = c; match f(s) { Ok(p) => Ok(p), Err(e) => Err((one(k), e)) } } }; let y2 = { let s = z_s; { let k = c; match f(s) { Ok(p) => Ok(p), Err(e) => Err((one(k), e)) } } }; (y1, y2) } }
law!{ t_try_run_ctx_lift__again [S: V, A: V, E: V] (m: Result<(S, A), E>, s: S, c: String, z_s: S) -> (Result<(S, A), (Vec<String>, E)>, Result<(S, A), (Vec<String>, E)>) ; { let m0 = StateT::<S, Result<(S, A), E>, A>::LiftM(m.clone()); let y1 = rc(m0.try_run_state_with_context(s.clone(), c.clone())); let y2 = rc(m0.try_run_state_with_context(z_s, c)); (y1, y2) } ; { let y1 = { let m = m.clone(); let s = s.clone(); let c = c.clone(); { let k = c; match m { Ok(p) => Ok(p), Err(e) => Err((one(k), e)) } } }; let y2 = { let s = z_s; { let k = c; match m { Ok(p) => Ok(p), Err(e) => Err((one(k), e)) } } }; (y1, y2) } }
law!{ t_map_error__again [S: V, A: V, E: V, G: V, F: Fn(S) -> Result<(S, A), E> + V, K: Fn(E) -> G + V] (f: F, k: K, s: S, z_s: S) -> (Result<(S, A), G>, Result<(S, A), G>) ; { let m0 = StateT::<S, Result<(S, A), E>, A>::new(f).map_error(k); let y1 = m0.run_state(s.clone()); let y2 = m0.run_state(z_s); (y1, y2) } ; { let y1 = { let f = f.clone(); let k = k.clone(); let s = s.clone(); match f(s) { Ok(p) => Ok(p), Err(e) => Err(k(e)) } }; let y2 = { let s = z_s; match f(s) { Ok(p) => Ok(p), Err(e) => Err(k(e)) } }; (y1, y2) } }
vlaw!{ t_map_error_lift__again [S: V, A: V, E: V, G: V, K: Fn(E) -> G + V] (m: Result<(S, A), E>, k: K, s: S, z_s: S) -> (Result<(S, A), G>, Result<(S, A), G>) ; { let m0 = StateT::<S, Result<(S, A), E>, A>::LiftM(m.clone()).map_error(k.clone()); let y1 = m0.run_state(s.clone()); let y2 = m0.run_state(z_s); (y1, y2) } ; { let y1 = { let m = m.clone(); let k = k.clone(); let s = s.clone(); match m { Ok(p) => Ok(p), Err(e) => Err(k(e)) } }; let y2 = { let s = z_s; match m { Ok(p) => Ok(p), Err(e) => Err(k(e)) } }; (y1, y2) } }
law!{ t_try_eval__again [S: V, A: V, E: V, F: Fn(S) -> Result<(S, A), E> + V] (f: F, s: S, z_s: S) -> (Result<A, (Vec<String>, E)>, Result<A, (Vec<String>, E)>) ; { let m0 = StateT::<S, Result<(S, A), E>, A>::new(f); let y1 = rc(m0.try_eval_state(s.clone())); let y2 = rc(m0.try_eval_state(z_s)); (y1, y2) } ; { let y1 = { let f = f.clone(); let s = s.clone(); match f(s) { Ok(p) => Ok(p.1), Err(e) => Err((Vec::new(), e)) } }; let y2 = { let s = z_s; match f(s) { Ok(p) => Ok(p.1), Err(e) => Err((Vec::new(), e)) } }; (y1, y2) } }
law!{ t_try_eval_ctx__again [S: V, A: V, E: V, F: Fn(S) -> Result<(S, A), E> + V] (f: F, s: S, c: String, z_s: S) -> (Result<A, (Vec<String>, E)>, Result<A, (Vec<String>, E)>) ; { let m0 = StateT::<S, Result<(S, A), E>, A>::new(f); let y1 = rc(m0.try_eval_state_with_context(s.clone(), c.clone())); let y2 = rc(m0.try_eval_state_with_context(z_s, c)); (y1, y2) } ; { let y1 = { let f = f.clone(); let s = s.clone(); let c = c.clone(); { let k = c; match f(s) { Ok(p) => Ok(p.1), Err(e) => Err((one(k), e)) } } }; let y2 = { let s = z_s; { let k = c; match f(s) { Ok(p) => Ok(p.1), Err(e) => Err((one(k), e)) } } }; (y1, y2) } }
law!{ t_try_exec__again [S: V, A: V, E: V, F: Fn(S) -> Result<(S, A), E> + V] (f: F, s: S, z_s: S) -> (Result<S, (Vec<String>, E)>, Result<S, (Vec<String>, E)>) ; { let m0 = StateT::<S, Result<(S, A), E>, A>::new(f); let y1 = rc(m0.try_exec_state(s.clone())); let y2 = rc(m0.try_exec_state(z_s)); (y1, y2) } ; { let y1 = { let f = f.clone(); let s = s.clone(); match f(s) { Ok(p) => Ok(p.0), Err(e) => Err((Vec::new(), e)) } }; let y2 = { let s = z_s; match f(s) { Ok(p) => Ok(p.0), Err(e) => Err((Vec::new(), e)) } }; (y1, y2) } }
law!{ t_to_state__again [S: V, A: V, F: Fn(S) -> (S, A) + V] (f: F, s: S, z_s: S) -> ((A, S), (A, S)) ; { let m0 = StateT::<S, Id<(S, A)>, A>::new(move |s| Id::new(f(s))).to_state(); let y1 = m0.run_state(s.clone()); let y2 = m0.run_state(z_s); (y1, y2) } ; { let y1 = { let f = f.clone(); let s = s.clone(); { let (t, a) = f(s); (a, t) } }; let y2 = { let s = z_s; { let (t, a) = f(s); (a, t) } }; (y1, y2) } }
law!{ t_from_state__again [S: V, A: V, F: Fn(S) -> (A, S) + V] (f: F, s: S, z_s: S) -> ((S, A), (S, A)) ; { let m0 = StateT::<S, Id<(S, A)>, A>::from_state(State::new(f)); let y1 = m0.run_state(s.clone()).into_inner(); let y2 = m0.run_state(z_s).into_inner(); (y1, y2) } ; { let y1 = { let f = f.clone(); let s = s.clone(); { let (a, t) = f(s); (t, a) } }; let y2 = { let s = z_s; { let (a, t) = f(s); (t, a) } }; (y1, y2) } }
law!{ t_clone_run__again [S: V, A: V, F: Fn(S) -> Option<(S, A)> + V] (f: F, s: S, z_s: S) -> (Option<(S, A)>, Option<(S, A)>) ; { let m0 = StateT::<S, Option<(S, A)>, A>::new(f).clone(); let y1 = m0.run_state(s.clone()); let y2 = m0.run_state(z_s); (y1, y2) } ; { let y1 = { let f = f.clone(); let s = s.clone(); f(s) }; let y2 = { let s = z_s; f(s) }; (y1, y2) } }
