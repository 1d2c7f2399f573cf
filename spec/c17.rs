use super::refs::*;
use crate::category::function_category::{FunctionCategory, FunctionMorphism, compose, pipe, function};
use crate::traits::arrow::Arrow;
use crate::traits::category::Category;
use crate::utils::categorical_utils as cu;
use crate::utils::functions as fu;
type FC = FunctionCategory;
law!{ identity [A: 'static] (a: A) -> A ; FC::identity_morphism::<A>()(a) ; a }
law!{ compose_morphisms [A: 'static, B: 'static, C: 'static, F: Fn(A) -> B + 'static, G: Fn(B) -> C + 'static] (f: F, g: G, a: A) -> C ; FC::compose_morphisms(&FC::arrow(g), &FC::arrow(f))(a) ; g(f(a)) }
law!{ compose_identity_left [A: 'static, B: 'static, F: Fn(A) -> B + 'static] (f: F, a: A) -> B ; FC::compose_morphisms(&FC::identity_morphism::<B>(), &FC::arrow(f))(a) ; f(a) }
law!{ compose_identity_right [A: 'static, B: 'static, F: Fn(A) -> B + 'static] (f: F, a: A) -> B ; FC::compose_morphisms(&FC::arrow(f), &FC::identity_morphism::<A>())(a) ; f(a) }
law!{ compose_assoc [A: 'static + Clone, B: 'static, C: 'static, D: 'static, F: Fn(A) -> B + 'static, G: Fn(B) -> C + 'static, H: Fn(C) -> D + 'static] (f: F, g: G, h: H, a: A) -> (D, D) ; { let f = FC::arrow(f); let g = FC::arrow(g); let h = FC::arrow(h); let x = FC::compose_morphisms(&FC::compose_morphisms(&h, &g), &f)(a.clone()); (x, FC::compose_morphisms(&h, &FC::compose_morphisms(&g, &f))(a)) } ; { let x = h(g(f(a.clone()))); (x, h(g(f(a)))) } }
law!{ arrow [A: 'static, B: 'static, F: Fn(A) -> B + 'static] (f: F, a: A) -> B ; FC::arrow(f)(a) ; f(a) }
law!{ lift [A: 'static, B: 'static, F: Fn(A) -> B + 'static] (f: F, a: A) -> B ; FC::lift(f)(a) ; f(a) }
law!{ first [A: 'static, B: 'static, D: 'static, F: Fn(A) -> B + 'static] (f: F, a: A, d: D) -> (B, D) ; FC::first::<A, B, D>(&FC::arrow(f))((a, d)) ; (f(a), d) }
law!{ second [A: 'static, B: 'static, D: 'static, F: Fn(A) -> B + 'static] (f: F, a: A, d: D) -> (D, B) ; FC::second::<A, B, D>(&FC::arrow(f))((d, a)) ; (d, f(a)) }
law!{ split [A: Clone + 'static, B: 'static, D: 'static, F: Fn(A) -> B + 'static, G: Fn(A) -> D + 'static] (f: F, g: G, a: A) -> (B, D) ; FC::split(&FC::arrow(f), &FC::arrow(g))(a) ; { let x = f(a.clone()); (x, g(a)) } }
law!{ combine [A: 'static, B: 'static, C: 'static, D: 'static, F: Fn(A) -> B + 'static, G: Fn(C) -> D + 'static] (f: F, g: G, a: A, c: C) -> (B, D) ; FC::combine_morphisms(&FC::arrow(f), &FC::arrow(g))((a, c)) ; { let x = f(a); (x, g(c)) } }
law!{ both [A: 'static, B: 'static, F: Fn(A) -> B + 'static] (f: F, a: A, b: A) -> (B, B) ; FC::both(f)((a, b)) ; { let x = f(a); (x, f(b)) } }
law!{ when [A: 'static, P: Fn(&A) -> bool + 'static, F: Fn(A) -> A + 'static] (p: P, f: F, a: A) -> A ; FC::when(p, f)(a) ; if p(&a) { f(a) } else { a } }
law!{ then_if [A: 'static, P: Fn(&A) -> bool + 'static, F: Fn(A) -> A + 'static, G: Fn(A) -> A + 'static] (p: P, f: F, g: G, a: A) -> A ; FC::then_if(&FC::arrow(f), &FC::arrow(g), p)(a) ; { let x = f(a); if p(&x) { g(x) } else { x } } }
law!{ compose_when [A: 'static, P: Fn(&A) -> bool + 'static, F: Fn(A) -> A + 'static, G: Fn(A) -> A + 'static] (p: P, f: F, g: G, a: A) -> A ; FC::compose_when(&FC::arrow(f), &FC::arrow(g), p)(a) ; { let x = f(a); if p(&x) { g(x) } else { x } } }
law!{ sequence [A: 'static, F: Fn(A) -> A + 'static] (fs: Vec<F>, a: A) -> A ; FC::sequence(fs)(a) ; { let mut x = a; for f in fs.iter() { x = f(x); } x } }
law!{ compose_macro [A: 'static, B: 'static, C: 'static, D: 'static, F: Fn(A) -> B + 'static, G: Fn(B) -> C + 'static, H: Fn(C) -> D + 'static] (f: F, g: G, h: H, a: A) -> D ; compose!(h, g, f)(a) ; h(g(f(a))) }
law!{ compose_macro_two [A: 'static, B: 'static, C: 'static, F: Fn(A) -> B + 'static, G: Fn(B) -> C + 'static] (f: F, g: G, a: A) -> C ; compose!(g, f)(a) ; g(f(a)) }
law!{ pipe_macro [A: 'static, B: 'static, C: 'static, D: 'static, F: Fn(A) -> B + 'static, G: Fn(B) -> C + 'static, H: Fn(C) -> D + 'static] (f: F, g: G, h: H, a: A) -> D ; pipe!(f, g, h)(a) ; h(g(f(a))) }
law!{ pipe_macro_two [A: 'static, B: 'static, C: 'static, F: Fn(A) -> B + 'static, G: Fn(B) -> C + 'static] (f: F, g: G, a: A) -> C ; pipe!(f, g)(a) ; g(f(a)) }
law!{ pipe_macro_one [A: 'static, B: 'static, F: Fn(A) -> B + 'static] (f: F, a: A) -> B ; pipe!(f)(a) ; f(a) }
law!{ compose_macro_one [A: 'static, B: 'static, F: Fn(A) -> B + 'static] (f: F, a: A) -> B ; compose!(f)(a) ; f(a) }
law!{ function_macro [] (a: u32, k: fn(u32) -> u32) -> u32 ; { function!(t: u32 => u32 = move |x: u32| k(x)); t(a) } ; k(a) }
/// An arrow that does not override the default `split`.
pub struct Def;
impl Category for Def { type Morphism<A, B> = FunctionMorphism<A, B>; fn identity_morphism<A>() -> FunctionMorphism<A, A> { std::sync::Arc::new(|x| x) } fn compose_morphisms<A: 'static, B: 'static, C: 'static>(g: &FunctionMorphism<B, C>, f: &FunctionMorphism<A, B>) -> FunctionMorphism<A, C> { let f = f.clone(); let g = g.clone(); std::sync::Arc::new(move |x| g(f(x))) } }
impl Arrow for Def { fn arrow<B, C, F: Fn(B) -> C + 'static>(f: F) -> FunctionMorphism<B, C> { std::sync::Arc::new(f) } fn first<B: 'static, C: 'static, D: 'static>(f: &FunctionMorphism<B, C>) -> FunctionMorphism<(B, D), (C, D)> { let f = f.clone(); std::sync::Arc::new(move |(b, d)| (f(b), d)) } fn second<B: 'static, C: 'static, D: 'static>(f: &FunctionMorphism<B, C>) -> FunctionMorphism<(D, B), (D, C)> { let f = f.clone(); std::sync::Arc::new(move |(d, b)| (d, f(b))) } fn combine_morphisms<B: 'static, C: 'static, D: 'static, E: 'static>(f: &FunctionMorphism<B, C>, g: &FunctionMorphism<D, E>) -> FunctionMorphism<(B, D), (C, E)> { let f = f.clone(); let g = g.clone(); std::sync::Arc::new(move |(b, d)| { let x = f(b); (x, g(d)) }) } }
law!{ default_split [A: Clone + 'static, B: 'static, D: 'static, F: Fn(A) -> B + 'static, G: Fn(A) -> D + 'static] (f: F, g: G, a: A) -> (B, D) ; Def::split(&Def::arrow(f), &Def::arrow(g))(a) ; { let x = f(a.clone()); (x, g(a)) } }
law!{ u_compose [A, B, C, F: Fn(A) -> B, G: Fn(B) -> C] (f: F, g: G, a: A) -> C ; cu::compose(g, f)(a) ; g(f(a)) }
law!{ u_pipe [A, B, C, F: Fn(A) -> B, G: Fn(B) -> C] (f: F, g: G, a: A) -> C ; cu::pipe(f, g)(a) ; g(f(a)) }
law!{ u_flip [A, B, C, F: Fn(A, B) -> C] (f: F, a: A, b: B) -> C ; cu::flip(f)(b, a) ; f(a, b) }
law!{ u_id [A] (a: A) -> A ; fu::id(a) ; a }
law!{ u_const [A: Clone, B] (a: A, b: B) -> A ; fu::const_fn(a)(b) ; a }
law!{ u_const_twice [A: Clone, B] (a: A, b: B, c: B) -> (A, A) ; { let k = fu::const_fn(a); let x = k(b); (x, k(c)) } ; { let x = a.clone(); (x, a) } }
law!{ u_map_option [A, B, F: FnOnce(A) -> B] (m: Option<A>, f: F) -> Option<B> ; cu::map_option(m, f) ; match m { Some(x) => Some(f(x)), None => None } }
law!{ u_map_result [A, B, E, F: FnOnce(A) -> B] (m: Result<A, E>, f: F) -> Result<B, E> ; cu::map_result(m, f) ; match m { Ok(x) => Ok(f(x)), Err(e) => Err(e) } }
law!{ u_bimap_result [A, B, E, D, F: FnOnce(A) -> B, G: FnOnce(E) -> D] (m: Result<A, E>, f: F, g: G) -> Result<B, D> ; cu::bimap_result(m, f, g) ; match m { Ok(x) => Ok(f(x)), Err(e) => Err(g(e)) } }
law!{ u_flat_map_option [A, B, F: FnOnce(A) -> Option<B>] (m: Option<A>, f: F) -> Option<B> ; cu::flat_map_option(m, f) ; match m { Some(x) => f(x), None => None } }
law!{ u_flat_map_result [A, B, E, F: FnOnce(A) -> Result<B, E>] (m: Result<A, E>, f: F) -> Result<B, E> ; cu::flat_map_result(m, f) ; match m { Ok(x) => f(x), Err(e) => Err(e) } }
law!{ h_compose_all [A: 'static] (f: Vec<Box<dyn Fn(A) -> A>>, a: A) -> A ; crate::utils::hkt_utils::compose_all::<A, A>(f)(a) ; { let mut x = a; for g in f.iter() { x = g(x); } x } }
