use super::refs::*;
use crate::datatypes::wrapper::thunk::Thunk;
use crate::datatypes::io::IO;
use crate::traits::evaluate::{Evaluate, EvaluateExt};
use crate::traits::natural_transformation::{identity_nat, NaturalTransformation};
pub mod thunk { use super::*;
law!{ evaluate [A, F: Fn() -> A] (f: F) -> A ; Thunk::new(f).evaluate() ; f() }
law!{ evaluate_owned [A: Clone, F: Fn() -> A] (f: F) -> A ; Thunk::new(f).evaluate_owned() ; f() }
law!{ new_defers [A, F: Fn() -> A] (f: F) -> () ; { let _t = Thunk::new(f); } ; () }
law!{ evaluate_twice [A, F: Fn() -> A] (f: F) -> (A, A) ; { let t = Thunk::new(f); let x = t.evaluate(); (x, t.evaluate()) } ; { let x = f(); (x, f()) } }
law!{ clone [A: Clone, F: Fn() -> A + Clone] (f: F) -> A ; Thunk::new(f).clone().evaluate() ; f() }
law!{ evaluate__again [A, F: Fn() -> A + Clone] (f: F) -> (A, A) ; { let m0 = Thunk::new(f); let y1 = m0.evaluate(); let y2 = m0.evaluate(); (y1, y2) } ; { let y1 = { let f = f.clone(); f() }; let y2 = { f() }; (y1, y2) } }
law!{ clone__again [A: Clone, F: Fn() -> A + Clone] (f: F) -> (A, A) ; { let m0 = Thunk::new(f).clone(); let y1 = m0.evaluate(); let y2 = m0.evaluate(); (y1, y2) } ; { let y1 = { let f = f.clone(); f() }; let y2 = { f() }; (y1, y2) } }
}
pub mod io { use super::*;
law!{ evaluate [A: V] (m: IO<A>) -> A ; m.evaluate() ; m.run() }
law!{ evaluate_owned [A: V] (m: IO<A>) -> A ; m.clone().evaluate_owned() ; m.run() }
law!{ evaluate__again [A: V] (m: IO<A>) -> (A, A) ; { let m0 = m; let y1 = m0.evaluate(); let y2 = m0.evaluate(); (y1, y2) } ; { let y1 = { let m = m.clone(); m.run() }; let y2 = { m.run() }; (y1, y2) } }
}
macro_rules! ev_laws { ($m:ident, $mk:expr) => { pub mod $m { use super::*;
law!{ fmap_evaluate [A: V, U, F: Fn() -> A + V, G: Fn(A) -> U] (f: F, g: G) -> U ; ($mk)(f).fmap_evaluate(|x| g(x)) ; g(f()) }
law!{ map_evaluate [A: V, U, F: Fn() -> A + V, G: Fn(A) -> U] (f: F, g: G) -> U ; ($mk)(f).map_evaluate(|x| g(x)) ; g(f()) }
law!{ fmap_evaluate_owned [A: V, U, F: Fn() -> A + V, G: Fn(A) -> U] (f: F, g: G) -> U ; ($mk)(f).fmap_evaluate_owned(|x| g(x)) ; g(f()) }
law!{ map_evaluate_owned [A: V, U, F: Fn() -> A + V, G: Fn(A) -> U] (f: F, g: G) -> U ; ($mk)(f).map_evaluate_owned(|x| g(x)) ; g(f()) }
law!{ bind_evaluate [A: V, B: V, F: Fn() -> A + V, G: Fn(A) -> B + V] (f: F, g: G) -> B ; ($mk)(f).bind_evaluate(|x: A| { let g = g.clone(); Thunk::new(move || g(x.clone())) }) ; g(f()) }
law!{ and_then_evaluate [A: V, B: V, F: Fn() -> A + V, G: Fn(A) -> B + V] (f: F, g: G) -> B ; ($mk)(f).and_then_evaluate(|x: A| { let g = g.clone(); Thunk::new(move || g(x.clone())) }) ; g(f()) }
law!{ bind_evaluate_owned [A: V, B: V, F: Fn() -> A + V, G: Fn(A) -> B + V] (f: F, g: G) -> B ; ($mk)(f).bind_evaluate_owned(|x: A| { let g = g.clone(); Thunk::new(move || g(x.clone())) }) ; g(f()) }
law!{ and_then_evaluate_owned [A: V, B: V, F: Fn() -> A + V, G: Fn(A) -> B + V] (f: F, g: G) -> B ; ($mk)(f).and_then_evaluate_owned(|x: A| { let g = g.clone(); Thunk::new(move || g(x.clone())) }) ; g(f()) }
law!{ combine_evaluate [A: V, B: V, U, F: Fn() -> A + V, G: Fn() -> B + V, H: Fn(A, B) -> U] (f: F, g: G, h: H) -> U ; ($mk)(f).combine_evaluate(&($mk)(g), |x, y| h(x, y)) ; { let x = f(); let y = g(); h(x, y) } }
law!{ combine_evaluate_owned [A: V, B: V, U, F: Fn() -> A + V, G: Fn() -> B + V, H: Fn(A, B) -> U] (f: F, g: G, h: H) -> U ; ($mk)(f).combine_evaluate_owned(($mk)(g), |x, y| h(x, y)) ; { let x = f(); let y = g(); h(x, y) } }
law!{ filter_evaluate [A: V, F: Fn() -> A + V, P: Fn(&A) -> bool] (f: F, p: P) -> Option<A> ; ($mk)(f).filter_evaluate(|x| p(x)) ; { let x = f(); if p(&x) { Some(x) } else { None } } }
law!{ filter_evaluate_owned [A: V, F: Fn() -> A + V, P: Fn(&A) -> bool] (f: F, p: P) -> Option<A> ; ($mk)(f).filter_evaluate_owned(|x| p(x)) ; { let x = f(); if p(&x) { Some(x) } else { None } } }
} } }
ev_laws!{ ext_thunk, Thunk::new }
ev_laws!{ ext_io, IO::new }
macro_rules! ident { ($m:ident [$($g:tt)*] $t:ty, $a:ty, $s:pat => $v:expr, $o:pat => $w:expr) => { pub mod $m { use super::*;
law!{ value [$($g)*] (m: $t) -> $a ; Identity::value(&m).clone() ; match m { $s => $v.clone(), #[allow(unreachable_patterns)] _ => panic!() } }
law!{ try_value [$($g)*] (m: $t) -> Option<$a> ; Identity::try_value(&m).cloned() ; match m { $s => Some($v.clone()), #[allow(unreachable_patterns)] _ => None } }
law!{ into_value [$($g)*] (m: $t) -> $a ; Identity::into_value(m) ; match m { $o => $w, #[allow(unreachable_patterns)] _ => panic!() } }
law!{ try_into_value [$($g)*] (m: $t) -> Option<$a> ; Identity::try_into_value(m) ; match m { $o => Some($w), #[allow(unreachable_patterns)] _ => None } }
} } }
ident!{ id_option [A: Clone] Option<A>, A, Some(ref x) => x, Some(x) => x }
ident!{ id_result [A: Clone, E: Clone + Debug] Result<A, E>, A, Ok(ref x) => x, Ok(x) => x }
ident!{ id_maybe [A: Clone] Maybe<A>, A, Maybe::Just(ref x) => x, Maybe::Just(x) => x }
ident!{ id_either [L: Clone, A: Clone] Either<L, A>, A, Either::Right(ref x) => x, Either::Right(x) => x }
ident!{ id_validated [E: Clone, A: Clone] Validated<E, A>, A, Validated::Valid(ref x) => x, Validated::Valid(x) => x }
ident!{ id_first [A: Clone] First<A>, A, First(Some(ref x)) => x, First(Some(x)) => x }
ident!{ id_last [A: Clone] Last<A>, A, Last(Some(ref x)) => x, Last(Some(x)) => x }
ident!{ id_sum [A: Clone + Add<Output = A>] Sum<A>, A, Sum(ref x) => x, Sum(x) => x }
ident!{ id_product [A: Clone + Mul<Output = A>] Product<A>, A, Product(ref x) => x, Product(x) => x }
ident!{ id_max [A: Clone + Ord] Max<A>, A, Max(ref x) => x, Max(x) => x }
ident!{ id_min [A: Clone + Ord] Min<A>, A, Min(ref x) => x, Min(x) => x }
pub mod id_id { use super::*;
law!{ value [A: Clone] (a: A) -> A ; Identity::value(&Id::new(a)).clone() ; a }
law!{ try_value [A: Clone] (a: A) -> Option<A> ; Identity::try_value(&Id::new(a)).cloned() ; Some(a) }
law!{ into_value [A: Clone] (a: A) -> A ; Identity::into_value(Id::new(a)) ; a }
law!{ try_into_value [A: Clone] (a: A) -> Option<A> ; Identity::try_into_value(Id::new(a)) ; Some(a) }
}
pub mod id_choice { use super::*;
law!{ value [A: Clone] (a: A, v: Vec<A>) -> A ; Identity::value(&Choice::new(a, v)).clone() ; a }
law!{ try_value [A: Clone] (m: Choice<A>) -> Option<A> ; Identity::try_value(&m).cloned() ; match m.first() { Some(x) => Some(x.clone()), None => None } }
law!{ into_value [A: Clone] (a: A, v: Vec<A>) -> A ; Identity::into_value(Choice::new(a, v)) ; a }
law!{ try_into_value [A: Clone] (m: Choice<A>) -> Option<A> ; Identity::try_into_value(m) ; match m.first() { Some(x) => Some(x.clone()), None => None } }
}
pub mod nat { use super::*;
law!{ option [A: Clone] (m: Option<A>) -> Option<A> ; identity_nat::<Option<A>>().transform(&m) ; m }
law!{ option_owned [A: Clone] (m: Option<A>) -> Option<A> ; identity_nat::<Option<A>>().transform_owned(m) ; m }
law!{ vec [A: Clone] (m: Vec<A>) -> Vec<A> ; identity_nat::<Vec<A>>().transform(&m) ; m }
law!{ vec_owned [A: Clone] (m: Vec<A>) -> Vec<A> ; identity_nat::<Vec<A>>().transform_owned(m) ; m }
}
//@also c24: seq::(try_)?(into_)?value
pub mod acc { use super::*;
law!{ id_unwrap_or [A] (a: A, d: A) -> A ; Id::new(a).unwrap_or(d) ; a }
law!{ id_unwrap [A] (a: A) -> A ; Id::new(a).unwrap() ; a }
law!{ id_into_inner [A] (a: A) -> A ; Id::new(a).into_inner() ; a }
law!{ id_value_mut [A: Clone] (a: A, b: A) -> (A, A) ; { let mut i = Id::new(a); let old = i.value_mut().clone(); *i.value_mut() = b; (old, i.into_inner()) } ; (a, b) }
law!{ id_default [A: Default] () -> A ; Id::<A>::default().into_inner() ; A::default() }
law!{ id_from [A] (a: A) -> A ; Id::from(a).into_inner() ; a }
law!{ id_iter [A: Clone] (a: A) -> Vec<A> ; { let mut v = Vec::new(); for x in Id::new(a) { v.push(x); } v } ; one(a) }
law!{ id_ref_iter [A: Clone] (a: A) -> Vec<A> ; { let mut v = Vec::new(); for x in &Id::new(a) { v.push(x.clone()); } v } ; one(a) }
law!{ id_mut_iter [A, F: Fn(&A) -> A] (a: A, f: F) -> A ; { let mut i = Id::new(a); for x in &mut i { *x = f(x); } i.into_inner() } ; f(&a) }
law!{ writer_mut_iter [W: Monoid + Clone, A: Clone, F: Fn(&A) -> A] (a: A, w: W, f: F) -> A ; { let mut m = Writer::new(w, a); for x in &mut m { *x = f(x); } m.value().clone() } ; f(&a) }
law!{ maybe_some [A] (a: A) -> Maybe<A> ; Maybe::some(a) ; Maybe::Just(a) }
law!{ maybe_none [A] () -> Maybe<A> ; Maybe::<A>::none() ; Maybe::Nothing }
law!{ maybe_default [A] () -> Maybe<A> ; Maybe::<A>::default() ; Maybe::Nothing }
law!{ maybe_iter_mut [A, F: Fn(&A) -> A] (m: Maybe<A>, f: F) -> Maybe<A> ; { let mut n = m; for x in n.iter_mut() { *x = f(x); } n } ; match m { Maybe::Just(x) => Maybe::Just(f(&x)), Maybe::Nothing => Maybe::Nothing } }
law!{ maybe_mut_iter [A, F: Fn(&A) -> A] (m: Maybe<A>, f: F) -> Maybe<A> ; { let mut n = m; for x in &mut n { *x = f(x); } n } ; match m { Maybe::Just(x) => Maybe::Just(f(&x)), Maybe::Nothing => Maybe::Nothing } }
law!{ either_left_iter_mut [L, A, F: Fn(&L) -> L] (m: Either<L, A>, f: F) -> Either<L, A> ; { let mut n = m; for x in n.left_iter_mut() { *x = f(x); } n } ; match m { Either::Left(x) => Either::Left(f(&x)), Either::Right(r) => Either::Right(r) } }
law!{ either_mut_iter [L, A, F: Fn(&A) -> A] (m: Either<L, A>, f: F) -> Either<L, A> ; { let mut n = m; for x in &mut n { *x = f(x); } n } ; match m { Either::Right(x) => Either::Right(f(&x)), Either::Left(r) => Either::Left(r) } }
law!{ either_left_mut [L, A] (l: L, k: L) -> Either<L, A> ; { let mut n = Either::<L, A>::Left(l); *n.left_mut() = k; n } ; Either::Left(k) }
law!{ either_left_iter [L: Clone, A: Clone] (m: Either<L, A>) -> Vec<L> ; { let mut v = Vec::new(); for x in m.left_iter() { v.push(x); } v } ; match m { Either::Left(x) => one(x), Either::Right(_) => Vec::new() } }
law!{ either_left_iter_ref [L: Clone, A: Clone] (m: Either<L, A>) -> Vec<L> ; { let mut v = Vec::new(); for x in m.left_iter_ref() { v.push(x.clone()); } v } ; match m { Either::Left(x) => one(x), Either::Right(_) => Vec::new() } }
law!{ either_left_option [L: Clone, A: Clone] (m: Either<L, A>) -> Option<L> ; m.left_option() ; match m { Either::Left(x) => Some(x), Either::Right(_) => None } }
law!{ validated_iter_mut [E: Clone, A: Clone, F: Fn(&A) -> A] (m: Validated<E, A>, f: F) -> Validated<E, A> ; { let mut n = m; for x in n.iter_mut() { *x = f(x); } n } ; match m { Validated::Valid(x) => Validated::Valid(f(&x)), Validated::Invalid(e) => Validated::Invalid(e) } }
law!{ validated_into_iter_mut [E: Clone, A: Clone, F: Fn(&A) -> A] (m: Validated<E, A>, f: F) -> Validated<E, A> ; { let mut n = m; for x in &mut n { *x = f(x); } n } ; match m { Validated::Valid(x) => Validated::Valid(f(&x)), Validated::Invalid(es) => Validated::Invalid(es) } }
law!{ validated_as_ref_trait [E: Clone, A: Clone] (x: A) -> A ; <Validated<E, A> as AsRef<A>>::as_ref(&Validated::Valid(x)).clone() ; x }
law!{ validated_iter [E: Clone, A: Clone] (m: Validated<E, A>) -> Vec<A> ; { let mut v = Vec::new(); for x in m.iter() { v.push(x.clone()); } v } ; match m { Validated::Valid(x) => one(x), Validated::Invalid(_) => Vec::new() } }
law!{ validated_into_iter [E: Clone, A: Clone] (m: Validated<E, A>) -> Vec<A> ; { let mut v = Vec::new(); for x in m { v.push(x); } v } ; match m { Validated::Valid(x) => one(x), Validated::Invalid(_) => Vec::new() } }
law!{ pure_type [A: Clone] (a: A) -> (Option<A>, Option<A>) ; (crate::traits::pure::PureType::<Option<A>, A>::lift(&a), crate::traits::pure::PureType::<Option<A>, A>::lift(&a)) ; (Some(a.clone()), Some(a)) }
}
