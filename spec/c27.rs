use super::refs::*;
use crate::traits::comonad::Comonad;
use crate::traits::contravariant_functor::{ContravariantFunctor, ContravariantFunctorExt};
use crate::traits::functor::Functor;
pub mod comonad_id { use super::*;
law!{ extract [A: Clone] (a: A) -> A ; Id::new(a).extract() ; a }
law!{ extend [A: Clone, B: Clone, F: Fn(&Id<A>) -> B] (a: A, f: F) -> Id<B> ; Id::new(a).extend(f) ; Id::new(f(&Id::new(a))) }
law!{ duplicate [A: Clone] (a: A) -> Id<A> ; Id::new(a).duplicate() ; Id::new(a) }
law!{ extend_extract [A: Clone] (a: A) -> Id<A> ; Id::new(a).extend(|w| w.extract()) ; Id::new(a) }
law!{ extract_extend [A: Clone, B: Clone, F: Fn(&Id<A>) -> B] (a: A, f: F) -> B ; Id::new(a).extend(f).extract() ; f(&Id::new(a)) }
law!{ extend_assoc [A: Clone, B: Clone, C: Clone, F: Fn(&Id<A>) -> B, G: Fn(&Id<B>) -> C] (a: A, f: F, g: G) -> Id<C> ; Id::new(a).extend(|w| f(w)).extend(|w| g(w)) ; Id::new(a).extend(|w| g(&w.extend(|v| f(v)))) }
law!{ fmap_is_extend [A: Clone, B: Clone, F: Fn(&A) -> B] (a: A, f: F) -> Id<B> ; Id::new(a).fmap(|x| f(x)) ; Id::new(a).extend(|w| f(&w.extract())) }
}
pub mod contra { use super::*;
law!{ contramap_with [K: ContravariantFunctor, U: Clone, F: Fn(&U) -> K::Source] (k: K, f: F) -> K::Output<U> ; k.contramap_with(f) ; k.contramap(f) }
law!{ contramap_const [S: Clone, K: ContravariantFunctor<Source = S>, U: Clone] (k: K, v: S) -> K::Output<U> ; k.contramap_const::<U>(v) ; k.contramap(move |_: &U| v.clone()) }
law!{ contra_compose [T: Clone, S: From<T>, K: ContravariantFunctor<Source = S>, G: ContravariantFunctor<Source = T>] (k: K, g: G) -> K::Output<T> ; k.contra_compose(&g) ; k.contramap(|x: &T| S::from(x.clone())) }
}
pub mod predicate { use super::*;
use crate::datatypes::wrapper::predicate::Predicate as P;
law!{ contains [A: 'static, F: Fn(&A) -> bool + 'static] (f: F, a: A) -> bool ; P::new(f).contains(&a) ; f(&a) }
law!{ union [A: 'static, F: Fn(&A) -> bool + 'static, G: Fn(&A) -> bool + 'static] (f: F, g: G, a: A) -> bool ; P::new(f).union(&P::new(g)).contains(&a) ; f(&a) || g(&a) }
law!{ intersection [A: 'static, F: Fn(&A) -> bool + 'static, G: Fn(&A) -> bool + 'static] (f: F, g: G, a: A) -> bool ; P::new(f).intersection(&P::new(g)).contains(&a) ; f(&a) && g(&a) }
law!{ diff [A: 'static, F: Fn(&A) -> bool + 'static, G: Fn(&A) -> bool + 'static] (f: F, g: G, a: A) -> bool ; P::new(f).diff(&P::new(g)).contains(&a) ; f(&a) && !g(&a) }
law!{ negate [A: 'static, F: Fn(&A) -> bool + 'static] (f: F, a: A) -> bool ; P::new(f).negate().contains(&a) ; !f(&a) }
law!{ bitor [A: 'static, F: Fn(&A) -> bool + 'static, G: Fn(&A) -> bool + 'static] (f: F, g: G, a: A) -> bool ; (P::new(f) | P::new(g)).contains(&a) ; f(&a) || g(&a) }
law!{ bitand [A: 'static, F: Fn(&A) -> bool + 'static, G: Fn(&A) -> bool + 'static] (f: F, g: G, a: A) -> bool ; (P::new(f) & P::new(g)).contains(&a) ; f(&a) && g(&a) }
law!{ sub [A: 'static, F: Fn(&A) -> bool + 'static, G: Fn(&A) -> bool + 'static] (f: F, g: G, a: A) -> bool ; (P::new(f) - P::new(g)).contains(&a) ; f(&a) && !g(&a) }
law!{ not [A: 'static, F: Fn(&A) -> bool + 'static] (f: F, a: A) -> bool ; (!P::new(f)).contains(&a) ; !f(&a) }
law!{ double_negation [A: 'static, F: Fn(&A) -> bool + 'static] (f: F, a: A) -> bool ; (!!P::new(f)).contains(&a) ; f(&a) }
law!{ empty [A: 'static] (a: A) -> bool ; <P<A> as crate::traits::monoid::Monoid>::empty().contains(&a) ; false }
law!{ combine [A: 'static, F: Fn(&A) -> bool + 'static, G: Fn(&A) -> bool + 'static] (f: F, g: G, a: A) -> bool ; P::new(f).combine(&P::new(g)).contains(&a) ; f(&a) || g(&a) }
law!{ combine_owned [A: 'static, F: Fn(&A) -> bool + 'static, G: Fn(&A) -> bool + 'static] (f: F, g: G, a: A) -> bool ; P::new(f).combine_owned(P::new(g)).contains(&a) ; f(&a) || g(&a) }
vlaw!{ de_morgan_or [A: 'static] (p: P<A>, q: P<A>, a: A) -> bool ; (!(p | q)).contains(&a) ; !p.contains(&a) && !q.contains(&a) }
vlaw!{ de_morgan_and [A: 'static] (p: P<A>, q: P<A>, a: A) -> bool ; (!(p & q)).contains(&a) ; !p.contains(&a) || !q.contains(&a) }
vlaw!{ diff_is_and_not [A: 'static] (p: P<A>, q: P<A>, a: A) -> bool ; p.diff(&q).contains(&a) ; p.intersection(&q.negate()).contains(&a) }
law!{ any_union [A: 'static] (p: P<A>, q: P<A>, a: A) -> bool ; p.union(&q).contains(&a) ; p.contains(&a) || q.contains(&a) }
law!{ reuse [A: 'static, F: Fn(&A) -> bool + 'static, G: Fn(&A) -> bool + 'static] (f: F, g: G, a: A) -> (bool, bool, bool) ; { let p = P::new(f); let q = P::new(g); let u = p.union(&q); let x = u.contains(&a); let y = p.contains(&a); (x, y, q.contains(&a)) } ; { let x = f(&a) || g(&a); let y = f(&a); (x, y, g(&a)) } }
law!{ contains__again [A: 'static + Clone, F: Fn(&A) -> bool + 'static + Clone] (f: F, a: A, z_a: A) -> (bool, bool) ; { let m0 = P::new(f); let y1 = m0.contains(&a); let y2 = m0.contains(&z_a); (y1, y2) } ; { let y1 = { let f = f.clone(); let a = a.clone(); f(&a) }; let y2 = { let a = z_a; f(&a) }; (y1, y2) } }
law!{ union__again [A: 'static + Clone, F: Fn(&A) -> bool + 'static + Clone, G: Fn(&A) -> bool + 'static + Clone] (f: F, g: G, a: A, z_a: A) -> (bool, bool) ; { let m0 = P::new(f).union(&P::new(g)); let y1 = m0.contains(&a); let y2 = m0.contains(&z_a); (y1, y2) } ; { let y1 = { let f = f.clone(); let g = g.clone(); let a = a.clone(); f(&a) || g(&a) }; let y2 = { let a = z_a; f(&a) || g(&a) }; (y1, y2) } }
law!{ intersection__again [A: 'static + Clone, F: Fn(&A) -> bool + 'static + Clone, G: Fn(&A) -> bool + 'static + Clone] (f: F, g: G, a: A, z_a: A) -> (bool, bool) ; { let m0 = P::new(f).intersection(&P::new(g)); let y1 = m0.contains(&a); let y2 = m0.contains(&z_a); (y1, y2) } ; { let y1 = { let f = f.clone(); let g = g.clone(); let a = a.clone(); f(&a) && g(&a) }; let y2 = { let a = z_a; f(&a) && g(&a) }; (y1, y2) } }
law!{ diff__again [A: 'static + Clone, F: Fn(&A) -> bool + 'static + Clone, G: Fn(&A) -> bool + 'static + Clone] (f: F, g: G, a: A, z_a: A) -> (bool, bool) ; { let m0 = P::new(f).diff(&P::new(g)); let y1 = m0.contains(&a); let y2 = m0.contains(&z_a); (y1, y2) } ; { let y1 = { let f = f.clone(); let g = g.clone(); let a = a.clone(); f(&a) && !g(&a) }; let y2 = { let a = z_a; f(&a) && !g(&a) }; (y1, y2) } }
law!{ negate__again [A: 'static + Clone, F: Fn(&A) -> bool + 'static + Clone] (f: F, a: A, z_a: A) -> (bool, bool) ; { let m0 = P::new(f).negate(); let y1 = m0.contains(&a); let y2 = m0.contains(&z_a); (y1, y2) } ; { let y1 = { let f = f.clone(); let a = a.clone(); !f(&a) }; let y2 = { let a = z_a; !f(&a) }; (y1, y2) } }
law!{ bitor__again [A: 'static + Clone, F: Fn(&A) -> bool + 'static + Clone, G: Fn(&A) -> bool + 'static + Clone] (f: F, g: G, a: A, z_a: A) -> (bool, bool) ; { let m0 = (P::new(f) | P::new(g)); let y1 = m0.contains(&a); let y2 = m0.contains(&z_a); (y1, y2) } ; { let y1 = { let f = f.clone(); let g = g.clone(); let a = a.clone(); f(&a) || g(&a) }; let y2 = { let a = z_a; f(&a) || g(&a) }; (y1, y2) } }
law!{ bitand__again [A: 'static + Clone, F: Fn(&A) -> bool + 'static + Clone, G: Fn(&A) -> bool + 'static + Clone] (f: F, g: G, a: A, z_a: A) -> (bool, bool) ; { let m0 = (P::new(f) & P::new(g)); let y1 = m0.contains(&a); let y2 = m0.contains(&z_a); (y1, y2) } ; { let y1 = { let f = f.clone(); let g = g.clone(); let a = a.clone(); f(&a) && g(&a) }; let y2 = { let a = z_a; f(&a) && g(&a) }; (y1, y2) } }
law!{ sub__again [A: 'static + Clone, F: Fn(&A) -> bool + 'static + Clone, G: Fn(&A) -> bool + 'static + Clone] (f: F, g: G, a: A, z_a: A) -> (bool, bool) ; { let m0 = (P::new(f) - P::new(g)); let y1 = m0.contains(&a); let y2 = m0.contains(&z_a); (y1, y2) } ; { let y1 = { let f = f.clone(); let g = g.clone(); let a = a.clone(); f(&a) && !g(&a) }; let y2 = { let a = z_a; f(&a) && !g(&a) }; (y1, y2) } }
law!{ not__again [A: 'static + Clone, F: Fn(&A) -> bool + 'static + Clone] (f: F, a: A, z_a: A) -> (bool, bool) ; { let m0 = (!P::new(f)); let y1 = m0.contains(&a); let y2 = m0.contains(&z_a); (y1, y2) } ; { let y1 = { let f = f.clone(); let a = a.clone(); !f(&a) }; let y2 = { let a = z_a; !f(&a) }; (y1, y2) } }
law!{ double_negation__again [A: 'static + Clone, F: Fn(&A) -> bool + 'static + Clone] (f: F, a: A, z_a: A) -> (bool, bool) ; { let m0 = (!!P::new(f)); let y1 = m0.contains(&a); let y2 = m0.contains(&z_a); (y1, y2) } ; { let y1 = { let f = f.clone(); let a = a.clone(); f(&a) }; let y2 = { let a = z_a; f(&a) }; (y1, y2) } }
law!{ empty__again [A: 'static + Clone] (a: A, z_a: A) -> (bool, bool) ; { let m0 = <P<A> as crate::traits::monoid::Monoid>::empty(); let y1 = m0.contains(&a); let y2 = m0.contains(&z_a); (y1, y2) } ; { let y1 = { let a = a.clone(); false }; let y2 = { let a = z_a; false }; (y1, y2) } }
law!{ combine__again [A: 'static + Clone, F: Fn(&A) -> bool + 'static + Clone, G: Fn(&A) -> bool + 'static + Clone] (f: F, g: G, a: A, z_a: A) -> (bool, bool) ; { let m0 = P::new(f).combine(&P::new(g)); let y1 = m0.contains(&a); let y2 = m0.contains(&z_a); (y1, y2) } ; { let y1 = { let f = f.clone(); let g = g.clone(); let a = a.clone(); f(&a) || g(&a) }; let y2 = { let a = z_a; f(&a) || g(&a) }; (y1, y2) } }
law!{ combine_owned__again [A: 'static + Clone, F: Fn(&A) -> bool + 'static + Clone, G: Fn(&A) -> bool + 'static + Clone] (f: F, g: G, a: A, z_a: A) -> (bool, bool) ; { let m0 = P::new(f).combine_owned(P::new(g)); let y1 = m0.contains(&a); let y2 = m0.contains(&z_a); (y1, y2) } ; { let y1 = { let f = f.clone(); let g = g.clone(); let a = a.clone(); f(&a) || g(&a) }; let y2 = { let a = z_a; f(&a) || g(&a) }; (y1, y2) } }
vlaw!{ de_morgan_or__again [A: 'static + Clone] (p: P<A>, q: P<A>, a: A, z_a: A) -> (bool, bool) ; { let m0 = (!(p | q)); let y1 = m0.contains(&a); let y2 = m0.contains(&z_a); (y1, y2) } ; { let y1 = { let p = p.clone(); let q = q.clone(); let a = a.clone(); !p.contains(&a) && !q.contains(&a) }; let y2 = { let a = z_a; !p.contains(&a) && !q.contains(&a) }; (y1, y2) } }
vlaw!{ de_morgan_and__again [A: 'static + Clone] (p: P<A>, q: P<A>, a: A, z_a: A) -> (bool, bool) ; { let m0 = (!(p & q)); let y1 = m0.contains(&a); let y2 = m0.contains(&z_a); (y1, y2) } ; { let y1 = { let p = p.clone(); let q = q.clone(); let a = a.clone(); !p.contains(&a) || !q.contains(&a) }; let y2 = { let a = z_a; !p.contains(&a) || !q.contains(&a) }; (y1, y2) } }
vlaw!{ diff_is_and_not__again [A: 'static + Clone] (p: P<A>, q: P<A>, a: A, z_a: A) -> (bool, bool) ; { let m0 = p.diff(&q); let y1 = m0.contains(&a); let y2 = m0.contains(&z_a); (y1, y2) } ; { let y1 = { let p = p.clone(); let q = q.clone(); let a = a.clone(); p.intersection(&q.negate()).contains(&a) }; let y2 = { let a = z_a; p.intersection(&q.negate()).contains(&a) }; (y1, y2) } }
law!{ any_union__again [A: 'static + Clone] (p: P<A>, q: P<A>, a: A, z_a: A) -> (bool, bool) ; { let m0 = p.union(&q); let y1 = m0.contains(&a); let y2 = m0.contains(&z_a); (y1, y2) } ; { let y1 = { let p = p.clone(); let q = q.clone(); let a = a.clone(); p.contains(&a) || q.contains(&a) }; let y2 = { let a = z_a; p.contains(&a) || q.contains(&a) }; (y1, y2) } }
}
