use super::refs::*;
macro_rules! applicative_laws { ($n:ident [$($g:tt)*] $t:ident <$($p:ident,)* @ $($q:ident),*> $rm:path, $rb:path) => { pub mod $n {
    use super::*;
    type T0<$($p,)* $($q,)*> = $t<$($p,)* () $(,$q)*>;
    law!{ apply [$($g)* A: Clone, B: Clone, F: Fn(&A) -> B + Clone] (mf: &$t<$($p,)* F $(,$q)*>, m: &$t<$($p,)* A $(,$q)*>) -> $t<$($p,)* B $(,$q)*> ;
        mf.apply(m) ; $rb(mf, |f| $rm(m, |x| f(x))) }
    law!{ apply_owned [$($g)* A: Clone, B: Clone, F: Fn(A) -> B + Clone] (mf: $t<$($p,)* F $(,$q)*>, m: $t<$($p,)* A $(,$q)*>) -> $t<$($p,)* B $(,$q)*> ;
        mf.apply_owned(m) ; $rb(&mf, |f| $rm(&m, |x| f(x.clone()))) }
    law!{ lift2 [$($g)* A: Clone, B: Clone, C: Clone, F: Fn(&A, &B) -> C] (f: F, a: &$t<$($p,)* A $(,$q)*>, b: &$t<$($p,)* B $(,$q)*>) -> $t<$($p,)* C $(,$q)*> ;
        T0::<$($p,)* $($q,)*>::lift2(f, a, b) ; $rb(a, |x| $rm(b, |y| f(x, y))) }
    law!{ lift2_owned [$($g)* A: Clone, B: Clone, C: Clone, F: Fn(A, B) -> C] (f: F, a: $t<$($p,)* A $(,$q)*>, b: $t<$($p,)* B $(,$q)*>) -> $t<$($p,)* C $(,$q)*> ;
        T0::<$($p,)* $($q,)*>::lift2_owned(f, a, b) ; $rb(&a, |x| $rm(&b, |y| f(x.clone(), y.clone()))) }
    law!{ lift3 [$($g)* A: Clone, B: Clone, C: Clone, D: Clone, F: Fn(&A, &B, &C) -> D] (f: F, a: &$t<$($p,)* A $(,$q)*>, b: &$t<$($p,)* B $(,$q)*>, c: &$t<$($p,)* C $(,$q)*>) -> $t<$($p,)* D $(,$q)*> ;
        T0::<$($p,)* $($q,)*>::lift3(f, a, b, c) ; $rb(a, |x| $rb(b, |y| $rm(c, |z| f(x, y, z)))) }
    law!{ lift3_owned [$($g)* A: Clone, B: Clone, C: Clone, D: Clone, F: Fn(A, B, C) -> D] (f: F, a: $t<$($p,)* A $(,$q)*>, b: $t<$($p,)* B $(,$q)*>, c: $t<$($p,)* C $(,$q)*>) -> $t<$($p,)* D $(,$q)*> ;
        T0::<$($p,)* $($q,)*>::lift3_owned(f, a, b, c) ; $rb(&a, |x| $rb(&b, |y| $rm(&c, |z| f(x.clone(), y.clone(), z.clone())))) }
    law!{ sequence_right [$($g)* A: Clone, B: Clone] (a: &$t<$($p,)* A $(,$q)*>, b: &$t<$($p,)* B $(,$q)*>) -> $t<$($p,)* B $(,$q)*> ;
        T0::<$($p,)* $($q,)*>::sequence_right(a, b) ; $rb(a, |_| $rm(b, |y| y.clone())) }
    law!{ sequence_left [$($g)* A: Clone, B: Clone] (a: &$t<$($p,)* A $(,$q)*>, b: &$t<$($p,)* B $(,$q)*>) -> $t<$($p,)* A $(,$q)*> ;
        T0::<$($p,)* $($q,)*>::sequence_left(a, b) ; $rb(a, |x| $rm(b, |_| x.clone())) }
    law!{ sequence_right_owned [$($g)* A: Clone, B: Clone] (a: $t<$($p,)* A $(,$q)*>, b: $t<$($p,)* B $(,$q)*>) -> $t<$($p,)* B $(,$q)*> ;
        T0::<$($p,)* $($q,)*>::sequence_right_owned(a, b) ; $rb(&a, |_| $rm(&b, |y| y.clone())) }
    law!{ sequence_left_owned [$($g)* A: Clone, B: Clone] (a: $t<$($p,)* A $(,$q)*>, b: $t<$($p,)* B $(,$q)*>) -> $t<$($p,)* A $(,$q)*> ;
        T0::<$($p,)* $($q,)*>::sequence_left_owned(a, b) ; $rb(&a, |x| $rm(&b, |_| x.clone())) }
    law!{ ap2 [$($g)* A: Clone, B: Clone, C: Clone, F: Fn(&A, &B) -> C] (f: F, a: &$t<$($p,)* A $(,$q)*>, b: &$t<$($p,)* B $(,$q)*>) -> $t<$($p,)* C $(,$q)*> ;
        T0::<$($p,)* $($q,)*>::ap2(f, a, b) ; $rb(a, |x| $rm(b, |y| f(x, y))) }
    law!{ homomorphism [$($g)* A: Clone, B: Clone, F: Fn(&A) -> B + Clone] (f: F, x: &A) -> $t<$($p,)* B $(,$q)*> ;
        { let pf: $t<$($p,)* F $(,$q)*> = T0::<$($p,)* $($q,)*>::pure(&f); let px: $t<$($p,)* A $(,$q)*> = T0::<$($p,)* $($q,)*>::pure(x); pf.apply(&px) } ;
        T0::<$($p,)* $($q,)*>::pure(&f(x)) }
    vlaw!{ interchange [$($g)* A: Clone, B: Clone, F: Fn(&A) -> B + Clone] (mf: &$t<$($p,)* F $(,$q)*>, x: &A) -> $t<$($p,)* B $(,$q)*> ;
        { let px: $t<$($p,)* A $(,$q)*> = T0::<$($p,)* $($q,)*>::pure(x); mf.apply(&px) } ; $rm(mf, |f| f(x)) }
} } }
applicative_laws!{ option [] Option<@> option_map, option_bind }
applicative_laws!{ result [E: Clone + Debug,] Result<@ E> result_map, result_bind }
applicative_laws!{ vec [] Vec<@> vec_map, vec_bind }
applicative_laws!{ maybe [] Maybe<@> maybe_map, maybe_bind }
applicative_laws!{ either [L: Clone,] Either<L, @> either_map, either_bind }
applicative_laws!{ id [] Id<@> id_map, id_bind }
pub mod pure {
    use super::*;
    law!{ option [A: Clone] (x: &A) -> Option<A> ; <Option<()> as Pure>::pure(x) ; Some(x.clone()) }
    law!{ option_owned [A: Clone] (x: A) -> Option<A> ; <Option<()> as Pure>::pure_owned(x) ; Some(x) }
    law!{ result [A: Clone, E: Clone] (x: &A) -> Result<A, E> ; <Result<(), E> as Pure>::pure(x) ; Ok(x.clone()) }
    law!{ result_owned [A: Clone, E: Clone] (x: A) -> Result<A, E> ; <Result<(), E> as Pure>::pure_owned(x) ; Ok(x) }
    law!{ vec [A: Clone] (x: &A) -> Vec<A> ; <Vec<()> as Pure>::pure(x) ; { let mut v = Vec::new(); v.push(x.clone()); v } }
    law!{ vec_owned [A: Clone] (x: A) -> Vec<A> ; <Vec<()> as Pure>::pure_owned(x) ; { let mut v = Vec::new(); v.push(x); v } }
    law!{ boxed [A: Clone] (x: &A) -> A ; *<Box<()> as Pure>::pure(x) ; x.clone() }
    law!{ boxed_owned [A: Clone] (x: A) -> A ; *<Box<()> as Pure>::pure_owned(x) ; x }
    law!{ maybe [A: Clone] (x: &A) -> Maybe<A> ; <Maybe<()> as Pure>::pure(x) ; Maybe::Just(x.clone()) }
    law!{ maybe_owned [A: Clone] (x: A) -> Maybe<A> ; <Maybe<()> as Pure>::pure_owned(x) ; Maybe::Just(x) }
    law!{ either [A: Clone, L] (x: &A) -> Either<L, A> ; <Either<L, ()> as Pure>::pure(x) ; Either::Right(x.clone()) }
    law!{ id [A: Clone] (x: &A) -> Id<A> ; <Id<()> as Pure>::pure(x) ; Id::new(x.clone()) }
    law!{ to_pure [A: Clone] (x: &A) -> Option<A> ; x.to_pure::<Option<()>>() ; Some(x.clone()) }
    law!{ to_pure_owned [A: Clone] (x: A) -> Option<A> ; x.to_pure_owned::<Option<()>>() ; Some(x) }
    law!{ pair_with [A: Clone, B: Clone] (x: &A, y: &B) -> Option<(A, B)> ; x.pair_with::<Option<()>, B>(y) ; Some((x.clone(), y.clone())) }
    law!{ lift_other [A: Clone, B: Clone] (x: &A, y: &B) -> Option<B> ; x.lift_other::<Option<()>, B>(y) ; Some(y.clone()) }
    law!{ combine_with [A: Clone, B: Clone, C: Clone, F: Fn(&A, &B) -> C] (x: &A, y: &B, f: F) -> Option<C> ; PureExt::combine_with::<Option<()>, B, C>(x, y, f) ; Some(f(x, y)) }
    law!{ puretype [A: Clone] (x: &A) -> Maybe<A> ; crate::traits::pure::PureType::<Maybe<()>, ()>::lift(x) ; Maybe::Just(x.clone()) }
    law!{ puretype_owned [A: Clone] (x: A) -> Maybe<A> ; crate::traits::pure::PureType::<Maybe<()>, ()>::lift_owned(x) ; Maybe::Just(x) }
}
//@also c05: apply|apply_owned|lift[23](_owned)?|sequence_(right|left)(_owned)?|ap2
//@also c11: apply|apply_owned|lift[23](_owned)?|pure|pure_owned|pure_value
//@also c28: lift[23](_owned)?|pure|pure_owned|apply|apply_owned
//@also c09: apply|pure|t_pure|t_apply(_lift_(left|right|both))?
//@also c10: combine|t_pure|t_apply_with|t_lift2|t_combine\w*
//@also c12: pure|return_cont|apply|apply_abort
//@also c13: pure_run|apply_run_effects|apply_pure_effect|apply_effect_pure|apply_pure_pure|a_pure|a_apply_run|a_apply_pure_\w+|a_apply_effect_pure|a_apply_owned_run|a_apply_owned_pure_\w+|a_apply_owned_effect_pure|a_zip_with|a_zip_with_pure|a_zip
pub mod choice { use super::*;
    vlaw!{ apply_agrees_with_lift2 [A: Clone, B: Clone, F: Fn(&A) -> B + Clone] (mf: &Choice<F>, m: &Choice<A>) -> Vec<B> ; pv(&mf.apply(m)) ; pv(&Choice::<()>::lift2(|f: &F, x: &A| f(x), mf, m)) }
    law!{ homomorphism [A: Clone, B: Clone, F: Fn(&A) -> B + Clone] (f: F, x: &A) -> Vec<B> ; { let pf: Choice<F> = Choice::<()>::pure(&f); let px: Choice<A> = Choice::<()>::pure(x); pv(&pf.apply(&px)) } ; one(f(x)) }
    vlaw!{ interchange [A: Clone, B: Clone, F: Fn(&A) -> B + Clone] (mf: &Choice<F>, x: &A) -> Vec<B> ; { let px: Choice<A> = Choice::<()>::pure(x); pv(&mf.apply(&px)) } ; { let mut v = Vec::new(); for f in mf.iter() { v.push(f(x)); } v } }
    law!{ identity [A: Clone] (m: &Choice<A>) -> Vec<A> ; { let id = |x: &A| x.clone(); let p: Choice<_> = Choice::<()>::pure(&id); pv(&p.apply(m)) } ; pv(m) }
    law!{ sequence_right [A: Clone, B: Clone] (a: &Choice<A>, b: &Choice<B>) -> Vec<B> ; pv(&Choice::<()>::sequence_right(a, b)) ; { let mut v = Vec::new(); for _ in a.iter() { for y in b.iter() { v.push(y.clone()); } } v } }
    law!{ sequence_left [A: Clone, B: Clone] (a: &Choice<A>, b: &Choice<B>) -> Vec<A> ; pv(&Choice::<()>::sequence_left(a, b)) ; { let mut v = Vec::new(); for x in a.iter() { for _ in b.iter() { v.push(x.clone()); } } v } }
    law!{ sequence_right_owned [A: Clone, B: Clone] (a: Choice<A>, b: Choice<B>) -> Vec<B> ; pv(&Choice::<()>::sequence_right_owned(a.clone(), b.clone())) ; { let mut v = Vec::new(); for _ in a.iter() { for y in b.iter() { v.push(y.clone()); } } v } }
    law!{ sequence_left_owned [A: Clone, B: Clone] (a: Choice<A>, b: Choice<B>) -> Vec<A> ; pv(&Choice::<()>::sequence_left_owned(a.clone(), b.clone())) ; { let mut v = Vec::new(); for x in a.iter() { for _ in b.iter() { v.push(x.clone()); } } v } }
    law!{ ap2 [A: Clone, B: Clone, C: Clone, F: Fn(&A, &B) -> C] (f: F, a: &Choice<A>, b: &Choice<B>) -> Vec<C> ; pv(&Choice::<()>::ap2(f, a, b)) ; { let mut v = Vec::new(); for x in a.iter() { for y in b.iter() { v.push(f(x, y)); } } v } }
}
pub mod writer { use super::*;
    law!{ sequence_right [L: W, A: Clone, B: Clone] (l: L, m: L, a: A, b: B) -> (L, B) ; Writer::<L, ()>::sequence_right(&Writer::new(l.clone(), a), &Writer::new(m.clone(), b.clone())).run() ; (l.combine(&m), b) }
    law!{ sequence_left [L: W, A: Clone, B: Clone] (l: L, m: L, a: A, b: B) -> (L, A) ; Writer::<L, ()>::sequence_left(&Writer::new(l.clone(), a.clone()), &Writer::new(m.clone(), b)).run() ; (l.combine(&m), a) }
    law!{ sequence_right_owned [L: W, A: Clone, B: Clone] (l: L, m: L, a: A, b: B) -> (L, B) ; Writer::<L, ()>::sequence_right_owned(Writer::new(l.clone(), a), Writer::new(m.clone(), b.clone())).run() ; (l.combine(&m), b) }
    law!{ sequence_left_owned [L: W, A: Clone, B: Clone] (l: L, m: L, a: A, b: B) -> (L, A) ; Writer::<L, ()>::sequence_left_owned(Writer::new(l.clone(), a.clone()), Writer::new(m.clone(), b)).run() ; (l.combine(&m), a) }
    law!{ homomorphism [L: W, A: Clone, B: Clone, F: Fn(&A) -> B + Clone] (f: F, x: A) -> B ; { let pf: Writer<L, F> = Writer::<L, ()>::pure(&f); let px: Writer<L, A> = Writer::<L, ()>::pure(&x); pf.apply(&px).run().1 } ; f(&x) }
    law!{ ap2 [L: W, A: Clone, B: Clone, C: Clone, F: Fn(&A, &B) -> C] (l: L, m: L, f: F, a: A, b: B) -> (L, C) ; Writer::<L, ()>::ap2(&f, &Writer::new(l.clone(), a.clone()), &Writer::new(m.clone(), b.clone())).run() ; (l.combine(&m), f(&a, &b)) }
}
pub mod validated { use super::*;
    law!{ homomorphism [E: Clone, A: Clone, B: Clone, F: Fn(&A) -> B + Clone] (f: F, x: &A) -> Validated<E, B> ; { let pf: Validated<E, F> = Validated::<E, ()>::pure(&f); let px: Validated<E, A> = Validated::<E, ()>::pure(x); pf.apply(&px) } ; Validated::Valid(f(x)) }
    vlaw!{ interchange [E: Clone, A: Clone, B: Clone, F: Fn(&A) -> B + Clone] (mf: &Validated<E, F>, x: &A) -> Validated<E, B> ; { let px: Validated<E, A> = Validated::<E, ()>::pure(x); mf.apply(&px) } ; validated_map(mf, |f| f(x)) }
    vlaw!{ apply_agrees_with_lift2 [E: Clone, A: Clone, B: Clone, F: Fn(&A) -> B + Clone] (mf: &Validated<E, F>, m: &Validated<E, A>) -> Validated<E, B> ; mf.apply(m) ; Validated::<E, ()>::lift2(|f: &F, x: &A| f(x), mf, m) }
    law!{ pure [E: Clone, A: Clone] (x: &A) -> Validated<E, A> ; Validated::<E, ()>::pure(x) ; Validated::Valid(x.clone()) }
    law!{ pure_owned [E: Clone, A: Clone] (x: A) -> Validated<E, A> ; Validated::<E, ()>::pure_owned(x.clone()) ; Validated::Valid(x) }
}
