use super::refs::*;
macro_rules! functor_laws { ($n:ident [$($g:tt)*] $t:ident <$($p:ident,)* @ $($q:ident),*> $rm:path) => { pub mod $n {
    use super::*;
    law!{ fmap [$($g)* A: Clone, B: Clone, F: Fn(&A) -> B] (m: &$t<$($p,)* A $(,$q)*>, f: F) -> $t<$($p,)* B $(,$q)*> ; m.fmap(f) ; $rm(m, f) }
    law!{ fmap_owned [$($g)* A: Clone, B: Clone, F: Fn(A) -> B] (m: $t<$($p,)* A $(,$q)*>, f: F) -> $t<$($p,)* B $(,$q)*> ; m.fmap_owned(f) ; $rm(&m, |x| f(x.clone())) }
    law!{ replace [$($g)* A: Clone, B: Clone] (m: &$t<$($p,)* A $(,$q)*>, b: &B) -> $t<$($p,)* B $(,$q)*> ; Functor::replace(m, b) ; $rm(m, |_| b.clone()) }
    law!{ replace_owned [$($g)* A: Clone, B: Clone] (m: &$t<$($p,)* A $(,$q)*>, b: B) -> $t<$($p,)* B $(,$q)*> ; Functor::replace_owned(m, b) ; $rm(m, |_| b.clone()) }
    law!{ void [$($g)* A: Clone] (m: &$t<$($p,)* A $(,$q)*>) -> $t<$($p,)* () $(,$q)*> ; Functor::void(m) ; $rm(m, |_| ()) }
    law!{ void_owned [$($g)* A: Clone] (m: $t<$($p,)* A $(,$q)*>) -> $t<$($p,)* () $(,$q)*> ; Functor::void_owned(m) ; $rm(&m, |_| ()) }
    law!{ identity [$($g)* A: Clone] (m: &$t<$($p,)* A $(,$q)*>) -> $t<$($p,)* A $(,$q)*> ; m.fmap(|x: &A| x.clone()) ; m.clone() }
    vlaw!{ composition [$($g)* A: Clone, B: Clone, C: Clone, F: Fn(&A) -> B, G: Fn(&B) -> C] (m: &$t<$($p,)* A $(,$q)*>, f: F, g: G) -> $t<$($p,)* C $(,$q)*> ; m.fmap(f).fmap(g) ; m.fmap(|x: &A| g(&f(x))) }
} } }
functor_laws!{ option [] Option<@> option_map }
functor_laws!{ result [E: Clone + Debug,] Result<@ E> result_map }
functor_laws!{ vec [] Vec<@> vec_map }
functor_laws!{ maybe [] Maybe<@> maybe_map }
functor_laws!{ either [L: Clone,] Either<L, @> either_map }
functor_laws!{ id [] Id<@> id_map }
macro_rules! functor_ext { ($n:ident [$($g:tt)*] $t:ident <@ $($q:ident),*> $rm:path) => { pub mod $n {
    use super::*;
    law!{ try_map_or [$($g)* A: Clone, B: Clone, Z, F: Fn(&A) -> Result<B, Z>] (m: &$t<A $(,$q)*>, d: B, f: F) -> $t<B $(,$q)*> ; m.try_map_or(d, f) ; $rm(m, |x| match f(x) { Ok(b) => b, Err(_) => d.clone() }) }
    law!{ try_map_or_else [$($g)* A: Clone, B: Clone, Z, D: Fn(&Z) -> B, F: Fn(&A) -> Result<B, Z>] (m: &$t<A $(,$q)*>, d: D, f: F) -> $t<B $(,$q)*> ; m.try_map_or_else(d, f) ; $rm(m, |x| match f(x) { Ok(b) => b, Err(z) => d(&z) }) }
} } }
functor_ext!{ option_ext [] Option<@> option_map }
functor_ext!{ result_ext [E: Clone + Debug + Default,] Result<@ E> result_map }
functor_ext!{ vec_ext [] Vec<@> vec_map }
law!{ option_filter_map [A: Clone, B: Clone, F: Fn(&A) -> Option<B>] (m: &Option<A>, f: F) -> Option<B> ; FunctorExt::filter_map(m, f) ; match m { Some(x) => f(x), None => None } }
law!{ result_filter_map [A: Clone, E: Clone + Debug + Default, B: Clone, F: Fn(&A) -> Option<B>] (m: &Result<A, E>, f: F) -> Result<B, E> ; FunctorExt::filter_map(m, f) ;
  match m { Ok(x) => match f(x) { Some(b) => Ok(b), None => Err(E::default()) }, Err(e) => Err(e.clone()) } }
law!{ vec_filter_map [A: Clone, B: Clone, F: Fn(&A) -> Option<B>] (m: &Vec<A>, f: F) -> Vec<B> ; FunctorExt::filter_map(m, f) ;
  { let mut v = Vec::new(); for x in m.iter() { if let Some(b) = f(x) { v.push(b); } } v } }
law!{ maybe_fmap_or [A, B, F: Fn(A) -> B] (m: Maybe<A>, d: B, f: F) -> B ; m.fmap_or(d, f) ; match m { Maybe::Just(x) => f(x), Maybe::Nothing => d } }
law!{ either_fmap_left [L, A, B, F: Fn(L) -> B] (m: Either<L, A>, f: F) -> Either<B, A> ; m.fmap_left(f) ; match m { Either::Left(l) => Either::Left(f(l)), Either::Right(r) => Either::Right(r) } }
law!{ either_fmap_right [L, A, B, F: Fn(A) -> B] (m: Either<L, A>, f: F) -> Either<L, B> ; m.fmap_right(f) ; match m { Either::Left(l) => Either::Left(l), Either::Right(r) => Either::Right(f(r)) } }
law!{ maybe_tap [A, F: Fn(&A)] (m: Maybe<A>, f: F) -> Maybe<A> ; m.tap(f) ; { if let Maybe::Just(x) = &m { f(x); } m } }
functor_laws!{ validated [E: Clone,] Validated<E, @> validated_map }
//@also c24: seq::fmap|seq::fmap_owned|seq::map
//@also c28: fmap|fmap_owned|fmap_alternatives
//@also c11: fmap\w*|replace|value|run
macro_rules! wrap_laws { ($n:ident $t:ident $map:ident) => { pub mod $n {
    use super::*;
    law!{ fmap [A: N, B: N, F: Fn(&A) -> B] (m: &$t<A>, f: F) -> $t<B> ; m.fmap(f) ; $map(m, f) }
    law!{ fmap_owned [A: N, B: N, F: Fn(A) -> B] (m: $t<A>, f: F) -> $t<B> ; m.fmap_owned(f) ; $map(&m, |x: &A| f(x.clone())) }
    law!{ replace [A: N, B: N] (m: &$t<A>, b: &B) -> $t<B> ; Functor::replace(m, b) ; $map(m, |_| b.clone()) }
    law!{ replace_owned [A: N, B: N] (m: &$t<A>, b: B) -> $t<B> ; Functor::replace_owned(m, b) ; $map(m, |_| b.clone()) }
    law!{ void [A: N] (m: &$t<A>) -> $t<()> ; Functor::void(m) ; $map(m, |_| ()) }
    law!{ void_owned [A: N] (m: $t<A>) -> $t<()> ; Functor::void_owned(m) ; $map(&m, |_| ()) }
    law!{ identity [A: N] (m: &$t<A>) -> $t<A> ; m.fmap(|x: &A| x.clone()) ; m.clone() }
    vlaw!{ composition [A: N, B: N, C: N, F: Fn(&A) -> B, G: Fn(&B) -> C] (m: &$t<A>, f: F, g: G) -> $t<C> ; m.fmap(|x: &A| f(x)).fmap(|x: &B| g(x)) ; m.fmap(|x: &A| g(&f(x))) }
} } }
fn sum_map<A, B>(m: &Sum<A>, f: impl Fn(&A) -> B) -> Sum<B> { Sum(f(&m.0)) }
fn product_map<A, B>(m: &Product<A>, f: impl Fn(&A) -> B) -> Product<B> { Product(f(&m.0)) }
fn max_map<A, B>(m: &Max<A>, f: impl Fn(&A) -> B) -> Max<B> { Max(f(&m.0)) }
fn min_map<A, B>(m: &Min<A>, f: impl Fn(&A) -> B) -> Min<B> { Min(f(&m.0)) }
wrap_laws!{ sum Sum sum_map }
wrap_laws!{ product Product product_map }
wrap_laws!{ max Max max_map }
wrap_laws!{ min Min min_map }
wrap_laws!{ first First first_map }
wrap_laws!{ last Last last_map }
pub mod choice { use super::*;
    law!{ replace [A: Clone, B: Clone] (c: &Choice<A>, b: &B) -> Vec<B> ; pv(&Functor::replace(c, b)) ; { let mut v = Vec::new(); for _ in c.iter() { v.push(b.clone()); } v } }
    law!{ replace_owned [A: Clone, B: Clone] (c: &Choice<A>, b: B) -> Vec<B> ; pv(&Functor::replace_owned(c, b.clone())) ; { let mut v = Vec::new(); for _ in c.iter() { v.push(b.clone()); } v } }
    law!{ void [A: Clone] (c: &Choice<A>) -> usize ; Functor::void(c).len() ; c.len() }
    law!{ void_owned [A: Clone] (c: Choice<A>) -> usize ; Functor::void_owned(c.clone()).len() ; c.len() }
    law!{ identity [A: Clone] (c: &Choice<A>) -> Vec<A> ; pv(&c.fmap(|x: &A| x.clone())) ; pv(c) }
    vlaw!{ composition [A: Clone, B: Clone, C: Clone, F: Fn(&A) -> B, G: Fn(&B) -> C] (c: &Choice<A>, f: F, g: G) -> Vec<C> ; pv(&c.fmap(|x: &A| f(x)).fmap(|x: &B| g(x))) ; pv(&c.fmap(|x: &A| g(&f(x)))) }
}
pub mod writer { use super::*;
    law!{ void [L: W, A: Clone] (l: L, a: A) -> (L, ()) ; Functor::void(&Writer::new(l.clone(), a)).run() ; (l, ()) }
    law!{ void_owned [L: W, A: Clone] (l: L, a: A) -> (L, ()) ; Functor::void_owned(Writer::new(l.clone(), a)).run() ; (l, ()) }
    law!{ replace_owned [L: W, A: Clone, B: Clone] (l: L, a: A, b: B) -> (L, B) ; Functor::replace_owned(&Writer::new(l.clone(), a), b.clone()).run() ; (l, b) }
    law!{ identity [L: W, A: Clone] (l: L, a: A) -> (L, A) ; Functor::fmap(&Writer::new(l.clone(), a.clone()), |x: &A| x.clone()).run() ; (l, a) }
    vlaw!{ composition [L: W, A: Clone, B: Clone, C: Clone, F: Fn(&A) -> B, G: Fn(&B) -> C] (l: L, a: A, f: F, g: G) -> (L, C) ; Functor::fmap(&Functor::fmap(&Writer::new(l.clone(), a.clone()), |x: &A| f(x)), |x: &B| g(x)).run() ; Functor::fmap(&Writer::new(l.clone(), a.clone()), |x: &A| g(&f(x))).run() }
}
law!{ try_map_or_option [A, B: Clone, X, F: Fn(&A) -> Result<B, X>] (m: &Option<A>, d: B, f: F) -> Option<B> ; m.try_map_or(d, |x| f(x)) ; match m { Some(x) => Some(match f(x) { Ok(b) => b, Err(_) => d }), None => None } }
law!{ try_map_or_id [A, B: Clone, X, F: Fn(&A) -> Result<B, X>] (m: &Id<A>, d: B, f: F) -> Id<B> ; m.try_map_or(d, |x| f(x)) ; id_map(m, |x| match f(x) { Ok(b) => b, Err(_) => d.clone() }) }
law!{ try_map_or_else_id [A, B: Clone, X, D: Fn(&X) -> B, F: Fn(&A) -> Result<B, X>] (m: &Id<A>, d: D, f: F) -> Id<B> ; m.try_map_or_else(|x| d(x), |x| f(x)) ; id_map(m, |x| match f(x) { Ok(b) => b, Err(e) => d(&e) }) }
