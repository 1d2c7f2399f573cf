use super::refs::*;
macro_rules! monad_laws { ($n:ident [$($g:tt)*] $t:ident <$($p:ident,)* @ $($q:ident),*> $rm:path, $rb:path) => { pub mod $n {
    use super::*;
    type T0<$($p,)* $($q,)*> = $t<$($p,)* () $(,$q)*>;
    law!{ bind [$($g)* A: Clone, B: Clone, F: Fn(&A) -> $t<$($p,)* B $(,$q)*>] (m: &$t<$($p,)* A $(,$q)*>, f: F) -> $t<$($p,)* B $(,$q)*> ; m.bind(f) ; $rb(m, |x| f(x)) }
    law!{ bind_owned [$($g)* A: Clone, B: Clone, F: Fn(A) -> $t<$($p,)* B $(,$q)*>] (m: $t<$($p,)* A $(,$q)*>, f: F) -> $t<$($p,)* B $(,$q)*> ; m.bind_owned(f) ; $rb(&m, |x| f(x.clone())) }
    law!{ flat_map [$($g)* A: Clone, B: Clone, F: Fn(&A) -> $t<$($p,)* B $(,$q)*>] (m: &$t<$($p,)* A $(,$q)*>, f: F) -> $t<$($p,)* B $(,$q)*> ; Monad::flat_map(m, f) ; $rb(m, |x| f(x)) }
    law!{ flat_map_owned [$($g)* A: Clone, B: Clone, F: Fn(A) -> $t<$($p,)* B $(,$q)*>] (m: $t<$($p,)* A $(,$q)*>, f: F) -> $t<$($p,)* B $(,$q)*> ; Monad::flat_map_owned(m, f) ; $rb(&m, |x| f(x.clone())) }
    law!{ map_and_pure [$($g)* A: Clone, B: Clone, F: Fn(&A) -> B] (m: &$t<$($p,)* A $(,$q)*>, f: F) -> $t<$($p,)* B $(,$q)*> ; m.map_and_pure(f) ; $rm(m, |x| f(x)) }
    law!{ try_bind [$($g)* A: Clone, B: Clone, Z, F: Fn(&A) -> Result<$t<$($p,)* B $(,$q)*>, Z>] (m: &$t<$($p,)* A $(,$q)*>, d: &B, f: F) -> $t<$($p,)* B $(,$q)*> ;
        m.try_bind(d, f) ; $rb(m, |x| match f(x) { Ok(r) => r, Err(_) => T0::<$($p,)* $($q,)*>::pure(d) }) }
    law!{ join [$($g)* A: Clone] (m: &$t<$($p,)* $t<$($p,)* A $(,$q)*> $(,$q)*>) -> $t<$($p,)* A $(,$q)*> ; m.join() ; $rb(m, |x| x.clone()) }
    law!{ join_owned [$($g)* A: Clone] (m: $t<$($p,)* $t<$($p,)* A $(,$q)*> $(,$q)*>) -> $t<$($p,)* A $(,$q)*> ; m.join_owned() ; $rb(&m, |x| x.clone()) }
    law!{ left_identity [$($g)* A: Clone, B: Clone, F: Fn(&A) -> $t<$($p,)* B $(,$q)*>] (x: &A, f: F) -> $t<$($p,)* B $(,$q)*> ;
        { let p: $t<$($p,)* A $(,$q)*> = T0::<$($p,)* $($q,)*>::pure(x); p.bind(f) } ; f(x) }
    law!{ right_identity [$($g)* A: Clone] (m: &$t<$($p,)* A $(,$q)*>) -> $t<$($p,)* A $(,$q)*> ; m.bind(|x: &A| T0::<$($p,)* $($q,)*>::pure(x)) ; m.clone() }
    vlaw!{ associativity [$($g)* A: Clone, B: Clone, C: Clone, F: Fn(&A) -> $t<$($p,)* B $(,$q)*>, G: Fn(&B) -> $t<$($p,)* C $(,$q)*>] (m: &$t<$($p,)* A $(,$q)*>, f: F, g: G) -> $t<$($p,)* C $(,$q)*> ;
        m.bind(|x: &A| f(x)).bind(|y: &B| g(y)) ; m.bind(|x: &A| f(x).bind(|y: &B| g(y))) }
    vlaw!{ fmap_is_bind_pure [$($g)* A: Clone, B: Clone, F: Fn(&A) -> B] (m: &$t<$($p,)* A $(,$q)*>, f: F) -> $t<$($p,)* B $(,$q)*> ;
        m.fmap(|x: &A| f(x)) ; m.bind(|x: &A| T0::<$($p,)* $($q,)*>::pure(&f(x))) }
} } }
macro_rules! monad_apply { ($n:ident [$($g:tt)*] $t:ident <$($p:ident,)* @ $($q:ident),*>) => { pub mod $n {
    use super::*;
    vlaw!{ apply_is_bind_fmap [$($g)* A: Clone, B: Clone, F: Fn(&A) -> B + Clone] (mf: &$t<$($p,)* F $(,$q)*>, m: &$t<$($p,)* A $(,$q)*>) -> $t<$($p,)* B $(,$q)*> ;
        mf.apply(m) ; mf.bind(|f: &F| m.fmap(|x: &A| f(x))) }
} } }
monad_apply!{ option_a [] Option<@> }
monad_apply!{ result_a [E: Clone + Debug,] Result<@ E> }
monad_apply!{ maybe_a [] Maybe<@> }
monad_apply!{ either_a [L: Clone,] Either<L, @> }
monad_apply!{ id_a [] Id<@> }
monad_laws!{ option [] Option<@> option_map, option_bind }
monad_laws!{ result [E: Clone + Debug,] Result<@ E> result_map, result_bind }
monad_laws!{ maybe [] Maybe<@> maybe_map, maybe_bind }
monad_laws!{ either [L: Clone,] Either<L, @> either_map, either_bind }
monad_laws!{ id [] Id<@> id_map, id_bind }
law!{ id_then [A, B] (a: Id<A>, b: Id<B>) -> Id<B> ; a.then(b) ; b }
monad_laws!{ validated [E: Clone,] Validated<E, @> validated_map, validated_bind }
//@also c28: bind|bind_owned|bind_lazy|join|join_owned|flatten|try_flatten|pure|pure_owned
//@also c11: bind\w*|tell_then|left_identity|right_identity\w*|associativity|join\w*|pure|pure_owned|pure_value
//@also c09: bind|bind_any|left_identity|right_identity|associativity|three_steps|t_bind\w*|t_join\w*
//@also c10: bind|bind_any|left_identity|right_identity|associativity|three_steps|t_bind\w*
//@also c12: bind\w*|left_identity|right_identity|associativity|t_bind
//@also c13: bind_run|bind_run_opaque|left_identity|right_identity|associativity|a_bind_run\w*|a_bind_pure|a_bind_owned_run\w*|a_bind_owned_pure
pub mod choice { use super::*;
    law!{ left_identity [A: Clone, B: Clone, F: Fn(&A) -> Choice<B>] (x: &A, f: F) -> Vec<B> ; { let p: Choice<A> = Choice::<()>::pure(x); pv(&p.bind(|y: &A| f(y))) } ; pv(&f(x)) }
    law!{ right_identity [A: Clone] (m: &Choice<A>) -> Vec<A> ; pv(&m.bind(|x: &A| Choice::<()>::pure(x))) ; pv(m) }
    vlaw!{ associativity [A: Clone, B: Clone, C: Clone, F: Fn(&A) -> Choice<B>, G: Fn(&B) -> Choice<C>] (m: &Choice<A>, f: F, g: G) -> Vec<C> ; pv(&m.bind(|x: &A| f(x)).bind(|y: &B| g(y))) ; pv(&m.bind(|x: &A| f(x).bind(|y: &B| g(y)))) }
    vlaw!{ fmap_is_bind_pure [A: Clone, B: Clone, F: Fn(&A) -> B] (m: &Choice<A>, f: F) -> Vec<B> ; pv(&m.fmap(|x: &A| f(x))) ; pv(&m.bind(|x: &A| Choice::<()>::pure(&f(x)))) }
    law!{ flat_map [A: Clone, B: Clone, F: Fn(&A) -> Choice<B>] (m: &Choice<A>, f: F) -> Vec<B> ; pv(&Monad::flat_map(m, |x: &A| f(x))) ; { let mut v = Vec::new(); for x in m.iter() { for y in f(x).iter() { v.push(y.clone()); } } v } }
    law!{ flat_map_owned [A: Clone, B: Clone, F: Fn(A) -> Choice<B>] (m: Choice<A>, f: F) -> Vec<B> ; pv(&Monad::flat_map_owned(m.clone(), |x: A| f(x))) ; { let mut v = Vec::new(); for x in m.iter() { for y in f(x.clone()).iter() { v.push(y.clone()); } } v } }
    vlaw!{ join_is_bind [A: Clone] (m: &Choice<Choice<A>>) -> Vec<A> ; pv::<A>(&m.join()) ; pv::<A>(&m.bind(|x: &Choice<A>| x.clone())) }
}
pub mod writer { use super::*;
    law!{ flat_map [L: W, A: Clone, B: Clone, F: Fn(&A) -> Writer<L, B>] (l: L, a: A, f: F) -> (L, B) ; Monad::flat_map(&Writer::new(l.clone(), a.clone()), &f).run() ; { let (m, b) = f(&a).run(); (l.combine(&m), b) } }
    law!{ flat_map_owned [L: W, A: Clone, B: Clone, F: Fn(A) -> Writer<L, B>] (l: L, a: A, f: F) -> (L, B) ; Monad::flat_map_owned(Writer::new(l.clone(), a.clone()), &f).run() ; { let (m, b) = f(a).run(); (l.combine(&m), b) } }
    vlaw!{ join_is_bind [L: W, A: Clone] (l: L, m: L, a: A) -> (L, A) ; Monad::join::<A>(&Writer::new(l.clone(), Writer::new(m.clone(), a.clone()))).run() ; Monad::bind(&Writer::new(l.clone(), Writer::new(m.clone(), a.clone())), |w: &Writer<L, A>| w.clone()).run() }
}
