use super::refs::*;
macro_rules! owned_laws { ($n:ident [$($g:tt)*] $t:ident <$($p:ident,)* @ $($q:ident),*>) => { pub mod $n {
    use super::*;
    type T0<$($p,)* $($q,)*> = $t<$($p,)* () $(,$q)*>;
    law!{ fmap [$($g)* A: Clone, B: Clone, F: Fn(&A) -> B] (m: &$t<$($p,)* A $(,$q)*>, f: F) -> $t<$($p,)* B $(,$q)*> ; m.fmap(|x: &A| f(x)) ; m.clone().fmap_owned(|x: A| f(&x)) }
    law!{ void [$($g)* A: Clone] (m: &$t<$($p,)* A $(,$q)*>) -> $t<$($p,)* () $(,$q)*> ; Functor::void(m) ; Functor::void_owned(m.clone()) }
    law!{ replace [$($g)* A: Clone, B: Clone] (m: &$t<$($p,)* A $(,$q)*>, b: &B) -> $t<$($p,)* B $(,$q)*> ; Functor::replace(m, b) ; Functor::replace_owned(m, b.clone()) }
    law!{ apply [$($g)* A: Clone, B: Clone, F: Fn(&A) -> B + Clone, G: Fn(A) -> B + Clone] (mf: &$t<$($p,)* F $(,$q)*>, m: &$t<$($p,)* A $(,$q)*>) -> $t<$($p,)* B $(,$q)*> ;
        mf.apply(m) ; mf.fmap(|f: &F| { let f = f.clone(); move |x: A| f(&x) }).apply_owned(m.clone()) }
    law!{ lift2 [$($g)* A: Clone, B: Clone, C: Clone, F: Fn(&A, &B) -> C] (f: F, a: &$t<$($p,)* A $(,$q)*>, b: &$t<$($p,)* B $(,$q)*>) -> $t<$($p,)* C $(,$q)*> ;
        T0::<$($p,)* $($q,)*>::lift2(|x: &A, y: &B| f(x, y), a, b) ; T0::<$($p,)* $($q,)*>::lift2_owned(|x: A, y: B| f(&x, &y), a.clone(), b.clone()) }
    law!{ lift3 [$($g)* A: Clone, B: Clone, C: Clone, D: Clone, F: Fn(&A, &B, &C) -> D] (f: F, a: &$t<$($p,)* A $(,$q)*>, b: &$t<$($p,)* B $(,$q)*>, c: &$t<$($p,)* C $(,$q)*>) -> $t<$($p,)* D $(,$q)*> ;
        T0::<$($p,)* $($q,)*>::lift3(|x: &A, y: &B, z: &C| f(x, y, z), a, b, c) ; T0::<$($p,)* $($q,)*>::lift3_owned(|x: A, y: B, z: C| f(&x, &y, &z), a.clone(), b.clone(), c.clone()) }
    law!{ seq_right [$($g)* A: Clone, B: Clone] (a: &$t<$($p,)* A $(,$q)*>, b: &$t<$($p,)* B $(,$q)*>) -> $t<$($p,)* B $(,$q)*> ;
        T0::<$($p,)* $($q,)*>::sequence_right(a, b) ; T0::<$($p,)* $($q,)*>::sequence_right_owned(a.clone(), b.clone()) }
    law!{ seq_left [$($g)* A: Clone, B: Clone] (a: &$t<$($p,)* A $(,$q)*>, b: &$t<$($p,)* B $(,$q)*>) -> $t<$($p,)* A $(,$q)*> ;
        T0::<$($p,)* $($q,)*>::sequence_left(a, b) ; T0::<$($p,)* $($q,)*>::sequence_left_owned(a.clone(), b.clone()) }
    law!{ pure [$($g)* A: Clone] (x: &A) -> $t<$($p,)* A $(,$q)*> ; T0::<$($p,)* $($q,)*>::pure(x) ; T0::<$($p,)* $($q,)*>::pure_owned(x.clone()) }
} } }
owned_laws!{ option [] Option<@> }
owned_laws!{ result [E: Clone + Debug,] Result<@ E> }
owned_laws!{ vec [] Vec<@> }
owned_laws!{ maybe [] Maybe<@> }
owned_laws!{ either [L: Clone,] Either<L, @> }
owned_laws!{ id [] Id<@> }
macro_rules! owned_monad { ($n:ident [$($g:tt)*] $t:ident <$($p:ident,)* @ $($q:ident),*>) => { pub mod $n {
    use super::*;
    law!{ bind [$($g)* A: Clone, B: Clone, F: Fn(&A) -> $t<$($p,)* B $(,$q)*>] (m: &$t<$($p,)* A $(,$q)*>, f: F) -> $t<$($p,)* B $(,$q)*> ; m.bind(|x: &A| f(x)) ; m.clone().bind_owned(|x: A| f(&x)) }
    law!{ join [$($g)* A: Clone] (m: &$t<$($p,)* $t<$($p,)* A $(,$q)*> $(,$q)*>) -> $t<$($p,)* A $(,$q)*> ; m.join() ; m.clone().join_owned() }
} } }
owned_monad!{ option_m [] Option<@> }
owned_monad!{ result_m [E: Clone + Debug,] Result<@ E> }
owned_monad!{ maybe_m [] Maybe<@> }
owned_monad!{ either_m [L: Clone,] Either<L, @> }
owned_monad!{ id_m [] Id<@> }
law!{ maybe_mplus [A: Clone] (a: &Maybe<A>, b: &Maybe<A>) -> Maybe<A> ; a.mplus(b) ; a.clone().mplus_owned(b.clone()) }
law!{ either_mplus [L: Clone + Default, A: Clone] (a: &Either<L, A>, b: &Either<L, A>) -> Either<L, A> ; a.mplus(b) ; a.clone().mplus_owned(b.clone()) }
law!{ either_map_second [L: Clone, A: Clone, B: Clone, F: Fn(&L) -> B] (a: &Either<L, A>, f: F) -> Either<B, A> ; crate::traits::hkt::BinaryHKT::map_second(a, |x| f(x)) ; crate::traits::hkt::BinaryHKT::map_second_owned(a.clone(), |x| f(&x)) }
owned_laws!{ validated [E: Clone,] Validated<E, @> }
owned_monad!{ validated_m [E: Clone,] Validated<E, @> }
//@also c24: seq::fmap_owned|seq::combine_owned|seq::into_value|seq::try_into_value
//@also c30: \w*::\w*evaluate\w*
//@also c13: a_(fmap|bind|apply)_(run|pure|owned_run|owned_pure|pure_pure|pure_effect|effect_pure|owned_pure_pure|owned_pure_effect|owned_effect_pure|bind_run_pure)
//@also c22: pipeline_map|pipeline_map_owned
//@also c28: apply|apply_owned
//@also c11: fmap_owned|bind_owned
//@also c02: pure::.*
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::hash::Hash;
use crate::traits::monad_error::{MonadError, ErrorMapper};
use crate::traits::natural_transformation::NaturalTransformation;
macro_rules! owned_sg { ($n:ident [$($g:tt)*] $t:ty) => { pub mod $n { use super::*;
    law!{ combine [$($g)*] (x: &$t, y: &$t) -> $t ; x.combine(y) ; x.clone().combine_owned(y.clone()) }
} } }
owned_sg!{ string_s [] String }
owned_sg!{ vec_s [T: Clone] Vec<T> }
owned_sg!{ tuple2_s [A: Semigroup + Clone, B: Semigroup + Clone] (A, B) }
owned_sg!{ tuple3_s [A: Semigroup + Clone, B: Semigroup + Clone, C: Semigroup + Clone] (A, B, C) }
owned_sg!{ tuple4_s [A: Semigroup + Clone, B: Semigroup + Clone, C: Semigroup + Clone, D: Semigroup + Clone] (A, B, C, D) }
owned_sg!{ option_s [T: Semigroup + Clone] Option<T> }
owned_sg!{ first_s [T: Clone] First<T> }
owned_sg!{ last_s [T: Clone] Last<T> }
owned_sg!{ max_s [T: Clone + Ord] Max<T> }
owned_sg!{ min_s [T: Clone + Ord] Min<T> }
owned_sg!{ sum_s [T: Clone + Add<Output = T>] Sum<T> }
owned_sg!{ product_s [T: Clone + Mul<Output = T>] Product<T> }
owned_sg!{ id_s [T: Clone + Semigroup] Id<T> }
owned_sg!{ validated_s [E: Clone, A: Clone] Validated<E, A> }
owned_sg!{ hashmap_s [K: Eq + Hash + Clone, V: Semigroup + Clone] HashMap<K, V> }
owned_sg!{ btreemap_s [K: Ord + Clone, V: Semigroup + Clone] BTreeMap<K, V> }
owned_sg!{ hashset_s [K: Eq + Hash + Clone] HashSet<K> }
owned_sg!{ btreeset_s [K: Ord + Clone] BTreeSet<K> }
law!{ predicate_s [A: 'static] (p: &Predicate<A>, q: &Predicate<A>, a: &A) -> bool ; p.combine(q).contains(a) ; p.clone().combine_owned(q.clone()).contains(a) }
law!{ choice_s [T: Clone] (x: &Choice<T>, y: &Choice<T>) -> Vec<T> ; pv(&x.combine(y)) ; pv(&x.clone().combine_owned(y.clone())) }
law!{ writer_s [L: W, A: W] (l: L, m: L, a: A, b: A) -> (L, A) ; Writer::new(l.clone(), a.clone()).combine(&Writer::new(m.clone(), b.clone())).run() ; Writer::new(l, a).combine_owned(Writer::new(m, b)).run() }
law!{ combine_n [T: Semigroup + Clone] (a: &T, n: usize) -> T ; a.combine_n(&n) ; a.clone().combine_n_owned(n) }
law!{ combine_all [T: Semigroup + Clone] (a: T, xs: Vec<T>) -> T ; a.clone().combine_all(xs.clone()) ; <T as SemigroupExt>::combine_all_owned(cat(one(a), xs)) }
macro_rules! owned_wrap { ($n:ident $t:ident) => { pub mod $n { use super::*;
    law!{ fmap [A: N, B: N, F: Fn(&A) -> B] (m: &$t<A>, f: F) -> $t<B> ; m.fmap(|x: &A| f(x)) ; m.clone().fmap_owned(|x: A| f(&x)) }
    law!{ void [A: N] (m: &$t<A>) -> $t<()> ; Functor::void(m) ; Functor::void_owned(m.clone()) }
    law!{ replace [A: N, B: N] (m: &$t<A>, b: &B) -> $t<B> ; Functor::replace(m, b) ; Functor::replace_owned(m, b.clone()) }
} } }
owned_wrap!{ sum Sum }
owned_wrap!{ product Product }
owned_wrap!{ max Max }
owned_wrap!{ min Min }
owned_wrap!{ first First }
owned_wrap!{ last Last }
pub mod choice { use super::*;
    law!{ fmap [A: Clone, B: Clone, F: Fn(&A) -> B] (m: &Choice<A>, f: F) -> Vec<B> ; pv(&m.fmap(|x: &A| f(x))) ; pv(&m.clone().fmap_owned(|x: A| f(&x))) }
    law!{ bind [A: Clone, B: Clone, F: Fn(&A) -> Choice<B>] (m: &Choice<A>, f: F) -> Vec<B> ; pv(&m.bind(|x: &A| f(x))) ; pv(&m.clone().bind_owned(|x: A| f(&x))) }
    law!{ join [A: Clone] (m: &Choice<Choice<A>>) -> Vec<A> ; pv::<A>(&m.join()) ; pv::<A>(&m.clone().join_owned()) }
    law!{ lift2 [A: Clone, B: Clone, C: Clone, F: Fn(&A, &B) -> C] (f: F, a: &Choice<A>, b: &Choice<B>) -> Vec<C> ; pv(&Choice::<()>::lift2(|x: &A, y: &B| f(x, y), a, b)) ; pv(&Choice::<()>::lift2_owned(|x: A, y: B| f(&x, &y), a.clone(), b.clone())) }
    law!{ lift3 [A: Clone, B: Clone, C: Clone, D: Clone, F: Fn(&A, &B, &C) -> D] (f: F, a: &Choice<A>, b: &Choice<B>, c: &Choice<C>) -> Vec<D> ; pv(&Choice::<()>::lift3(|x: &A, y: &B, z: &C| f(x, y, z), a, b, c)) ; pv(&Choice::<()>::lift3_owned(|x: A, y: B, z: C| f(&x, &y, &z), a.clone(), b.clone(), c.clone())) }
    law!{ mplus [A: Clone] (a: &Choice<A>, b: &Choice<A>) -> Vec<A> ; pv(&a.mplus(b)) ; pv(&a.clone().mplus_owned(b.clone())) }
    law!{ pure [A: Clone] (x: &A) -> Vec<A> ; pv(&<Choice<()> as Pure>::pure(x)) ; pv(&<Choice<()> as Pure>::pure_owned(x.clone())) }
    law!{ iter [A: Clone] (c: &Choice<A>) -> Vec<A> ; { let mut v = Vec::new(); for x in c { v.push(x.clone()); } v } ; { let mut v = Vec::new(); for x in c.clone() { v.push(x); } v } }
    law!{ value [T: Clone] (x: T, xs: Vec<T>) -> T ; Identity::value(&Choice::new(x.clone(), xs.clone())).clone() ; Identity::into_value(Choice::new(x, xs)) }
}
pub mod writer { use super::*;
    law!{ fmap [L: W, A: Clone, B: Clone, F: Fn(&A) -> B] (l: L, a: A, f: F) -> (L, B) ; Writer::new(l.clone(), a.clone()).fmap(|x: &A| f(x)).run() ; Functor::fmap_owned(Writer::new(l.clone(), a.clone()), |x: A| f(&x)).run() }
    law!{ void [L: W, A: Clone] (l: L, a: A) -> (L, ()) ; Functor::void(&Writer::new(l.clone(), a.clone())).run() ; Functor::void_owned(Writer::new(l.clone(), a.clone())).run() }
    law!{ bind [L: W, A: Clone, B: Clone, F: Fn(&A) -> (L, B)] (l: L, a: A, f: F) -> (L, B) ; Monad::bind(&Writer::new(l.clone(), a.clone()), |x: &A| { let (m, b) = f(x); Writer::new(m, b) }).run() ; Monad::bind_owned(Writer::new(l.clone(), a.clone()), |x: A| { let (m, b) = f(&x); Writer::new(m, b) }).run() }
    law!{ join [L: W, A: Clone] (l: L, m: L, a: A) -> (L, A) ; Monad::join::<A>(&Writer::new(l.clone(), Writer::new(m.clone(), a.clone()))).run() ; Monad::join_owned::<A>(Writer::new(l.clone(), Writer::new(m.clone(), a.clone()))).run() }
    law!{ apply [L: W, A: Clone, B: Clone, F: Fn(&A) -> B + Clone] (l: L, m: L, f: F, a: A) -> (L, B) ; Writer::new(l.clone(), f.clone()).apply(&Writer::new(m.clone(), a.clone())).run() ; { let g = f.clone(); Writer::new(l.clone(), move |x: A| g(&x)).apply_owned(Writer::new(m.clone(), a.clone())).run() } }
    law!{ lift2 [L: W, A: Clone, B: Clone, C: Clone, F: Fn(&A, &B) -> C] (l: L, m: L, f: F, a: A, b: B) -> (L, C) ; Writer::<L, ()>::lift2(|x: &A, y: &B| f(x, y), &Writer::new(l.clone(), a.clone()), &Writer::new(m.clone(), b.clone())).run() ; Writer::<L, ()>::lift2_owned(|x: A, y: B| f(&x, &y), Writer::new(l.clone(), a.clone()), Writer::new(m.clone(), b.clone())).run() }
    law!{ lift3 [L: W, A: Clone, B: Clone, C: Clone, D: Clone, F: Fn(&A, &B, &C) -> D] (l: L, m: L, n: L, f: F, a: A, b: B, c: C) -> (L, D) ; Writer::<L, ()>::lift3(|x: &A, y: &B, z: &C| f(x, y, z), &Writer::new(l.clone(), a.clone()), &Writer::new(m.clone(), b.clone()), &Writer::new(n.clone(), c.clone())).run() ; Writer::<L, ()>::lift3_owned(|x: A, y: B, z: C| f(&x, &y, &z), Writer::new(l.clone(), a.clone()), Writer::new(m.clone(), b.clone()), Writer::new(n.clone(), c.clone())).run() }
    law!{ seq_right [L: W, A: Clone, B: Clone] (l: L, m: L, a: A, b: B) -> (L, B) ; Writer::<L, ()>::sequence_right(&Writer::new(l.clone(), a.clone()), &Writer::new(m.clone(), b.clone())).run() ; Writer::<L, ()>::sequence_right_owned(Writer::new(l.clone(), a.clone()), Writer::new(m.clone(), b.clone())).run() }
    law!{ seq_left [L: W, A: Clone, B: Clone] (l: L, m: L, a: A, b: B) -> (L, A) ; Writer::<L, ()>::sequence_left(&Writer::new(l.clone(), a.clone()), &Writer::new(m.clone(), b.clone())).run() ; Writer::<L, ()>::sequence_left_owned(Writer::new(l.clone(), a.clone()), Writer::new(m.clone(), b.clone())).run() }
    law!{ pure [L: W, A: Clone] (a: A) -> (L, A) ; <Writer<L, A> as Pure>::pure(&a).run() ; <Writer<L, A> as Pure>::pure_owned(a.clone()).run() }
    law!{ value [L: W, A: Clone] (l: L, a: A) -> A ; Identity::value(&Writer::new(l.clone(), a.clone())).clone() ; Identity::into_value(Writer::new(l.clone(), a.clone())) }
}
law!{ option_mplus [A: Clone] (a: &Option<A>, b: &Option<A>) -> Option<A> ; a.mplus(b) ; a.clone().mplus_owned(b.clone()) }
law!{ result_mplus [A: Clone, E: Clone + Debug + Default] (a: &Result<A, E>, b: &Result<A, E>) -> Result<A, E> ; a.mplus(b) ; a.clone().mplus_owned(b.clone()) }
law!{ vec_mplus [A: Clone] (a: &Vec<A>, b: &Vec<A>) -> Vec<A> ; a.mplus(b) ; a.clone().mplus_owned(b.clone()) }
law!{ validated_mplus [E: Clone, A: Clone] (a: &Validated<E, A>, b: &Validated<E, A>) -> Validated<E, A> ; a.mplus(b) ; a.clone().mplus_owned(b.clone()) }
law!{ result_catch [A: Clone, E: Clone + Debug, F: Fn(&E) -> Result<A, E>] (m: &Result<A, E>, f: F) -> Result<A, E> ; MonadError::catch(m, |e: &E| f(e)) ; MonadError::catch_owned(m.clone(), |e: E| f(&e)) }
law!{ option_catch [A: Clone, F: Fn() -> Option<A>] (m: &Option<A>, f: F) -> Option<A> ; MonadError::catch(m, |_: &()| f()) ; MonadError::catch_owned(m.clone(), |_: ()| f()) }
law!{ result_map_error [A: Clone, E: Clone + Debug, G, F: Fn(&E) -> G] (m: &Result<A, E>, f: F) -> Result<A, G> ; ErrorMapper::map_error_to(m, |e: &E| f(e)) ; ErrorMapper::map_error_to_owned(m.clone(), |e: E| f(&e)) }
law!{ option_map_error [A: Clone, G, F: Fn() -> G] (m: &Option<A>, f: F) -> Result<A, G> ; ErrorMapper::map_error_to(m, |_: &()| f()) ; ErrorMapper::map_error_to_owned(m.clone(), |_: ()| f()) }
pub mod validated_v { use super::*;
    law!{ fmap_invalid [E: Clone, A: Clone, G: Clone, F: Fn(&E) -> G] (m: &Validated<E, A>, f: F) -> Validated<G, A> ; m.fmap_invalid(|e: &E| f(e)) ; m.clone().fmap_invalid_owned(|e: E| f(&e)) }
    law!{ map_second [E: Clone, A: Clone, G: Clone, F: Fn(&E) -> G] (m: &Validated<E, A>, f: F) -> Validated<G, A> ; BinaryHKT::map_second(m, |e: &E| f(e)) ; BinaryHKT::map_second_owned(m.clone(), |e: E| f(&e)) }
    law!{ combine_errors [E: Clone, A: Clone] (a: &Validated<E, A>, es: Vec<E>) -> Validated<E, A> ; a.combine_errors(&inv(es.clone())) ; a.clone().combine_errors_owned(inv(es.clone())) }
    law!{ combine_errors_r [E: Clone, A: Clone] (a: &Validated<E, A>, es: Vec<E>) -> Validated<E, A> ; inv::<E, A>(es.clone()).combine_errors(a) ; inv::<E, A>(es.clone()).combine_errors_owned(a.clone()) }
    law!{ from_result [E: Clone, A: Clone] (m: &Result<A, E>) -> Validated<E, A> ; Validated::from_result(m) ; Validated::from_result_owned(m.clone()) }
    law!{ to_result_valid [E: Clone, A: Clone] (a: &A) -> Result<A, E> ; Validated::<E, A>::Valid(a.clone()).to_result() ; Validated::<E, A>::Valid(a.clone()).to_result_owned() }
    law!{ to_result_invalid [E: Clone, A: Clone] (e: E, es: Vec<E>) -> Result<A, E> ; inv::<E, A>(cat(one(e.clone()), es.clone())).to_result() ; inv::<E, A>(cat(one(e.clone()), es.clone())).to_result_owned() }
    law!{ from_option [E: Clone, A: Clone] (m: &Option<A>, e: &E) -> Validated<E, A> ; Validated::from_option(m, e) ; Validated::from_option_owned(m.clone(), e.clone()) }
    law!{ from_option_with [E: Clone, A: Clone, F: Fn() -> E] (m: &Option<A>, f: F) -> Validated<E, A> ; Validated::from_option_with(m, &f) ; Validated::from_option_with_owned(m.clone(), || f()) }
    law!{ unwrap [E: Clone + Debug, A: Clone] (m: &Validated<E, A>) -> A ; m.unwrap() ; m.clone().unwrap_owned() }
    law!{ unwrap_invalid [E: Clone, A: Clone + Debug] (m: &Validated<E, A>) -> Vec<E> ; m.unwrap_invalid().into_vec() ; m.clone().unwrap_invalid_owned().into_vec() }
    law!{ collect [E: Clone, A: Clone] (v: Vec<Validated<E, A>>) -> Validated<E, Vec<A>> ; Validated::collect::<_, Vec<A>>(v.clone().into_iter()) ; Validated::collect_owned::<_, Vec<A>>(v.into_iter()) }
    law!{ sequence [E: Clone, A: Clone, B: Clone, F: Fn(&[A]) -> B] (v: Vec<Validated<E, A>>, f: F) -> Validated<E, B> ; { let r: Vec<&Validated<E, A>> = v.iter().collect(); Validated::sequence(&r, &|x: &[A]| f(x)) } ; Validated::sequence_owned(v.clone(), |x: Vec<A>| f(&x)) }
}
