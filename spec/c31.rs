//! Equality, order and hash of values: two values are equal exactly when everything they hold is.
use super::refs::*;
use std::cmp::Ordering;
use std::hash::{Hash, Hasher};
#[allow(deprecated)]
use crate::datatypes::maybe::MaybeError;
use crate::datatypes::io::IOError;
use crate::utils::error_utils::{error_with_context, AppError};
pub fn hs<A: Hash, H: Hasher>(a: &A, mut h: H) -> H { a.hash(&mut h); h }
pub fn le<L, R>(e: Either<L, R>) -> Result<L, R> { match e { Either::Left(l) => Ok(l), Either::Right(r) => Err(r) } }
pub fn lm<T>(m: Maybe<T>) -> Result<T, ()> { match m { Maybe::Just(x) => Ok(x), Maybe::Nothing => Err(()) } }
pub fn lv<E, A>(v: Validated<E, A>) -> Result<A, Vec<E>> { match v { Validated::Valid(a) => Ok(a), Validated::Invalid(es) => Err(es.into_vec()) } }
pub mod either { use super::*;
law!{ eq [L: PartialEq, R: PartialEq] (a: Either<L, R>, b: Either<L, R>) -> bool ; a == b ; match (a, b) { (Either::Left(x), Either::Left(y)) => x == y, (Either::Right(x), Either::Right(y)) => x == y, _ => false } }
law!{ ne [L: PartialEq, R: PartialEq] (a: Either<L, R>, b: Either<L, R>) -> bool ; a != b ; !(a == b) }
law!{ cmp [L: Ord, R: Ord] (a: Either<L, R>, b: Either<L, R>) -> Ordering ; a.cmp(&b) ; le(a).cmp(&le(b)) }
law!{ partial_cmp [L: PartialOrd, R: PartialOrd] (a: Either<L, R>, b: Either<L, R>) -> Option<Ordering> ; a.partial_cmp(&b) ; le(a).partial_cmp(&le(b)) }
law!{ hash [L: Hash, R: Hash, H: Hasher] (a: Either<L, R>, h: H) -> H ; hs(&a, h) ; hs(&le(a), h) }
}
pub mod maybe { use super::*;
law!{ eq [T: PartialEq] (a: Maybe<T>, b: Maybe<T>) -> bool ; a == b ; match (a, b) { (Maybe::Just(x), Maybe::Just(y)) => x == y, (Maybe::Nothing, Maybe::Nothing) => true, _ => false } }
law!{ cmp [T: Ord] (a: Maybe<T>, b: Maybe<T>) -> Ordering ; a.cmp(&b) ; lm(a).cmp(&lm(b)) }
law!{ partial_cmp [T: PartialOrd] (a: Maybe<T>, b: Maybe<T>) -> Option<Ordering> ; a.partial_cmp(&b) ; lm(a).partial_cmp(&lm(b)) }
law!{ eq_error [] (a: MaybeError, b: MaybeError) -> bool ; a == b ; match (a, b) { (MaybeError::Custom(x), MaybeError::Custom(y)) => x == y, (MaybeError::ValueNotPresent, MaybeError::ValueNotPresent) => true, _ => false } }
}
pub mod validated { use super::*;
law!{ eq [E: PartialEq, A: PartialEq] (a: Validated<E, A>, b: Validated<E, A>) -> bool ; a == b ; match (a, b) { (Validated::Valid(x), Validated::Valid(y)) => x == y, (Validated::Invalid(x), Validated::Invalid(y)) => x.into_vec() == y.into_vec(), _ => false } }
law!{ cmp [E: Ord, A: Ord] (a: Validated<E, A>, b: Validated<E, A>) -> Ordering ; a.cmp(&b) ; lv(a).cmp(&lv(b)) }
law!{ partial_cmp [E: PartialOrd, A: PartialOrd] (a: Validated<E, A>, b: Validated<E, A>) -> Option<Ordering> ; a.partial_cmp(&b) ; lv(a).partial_cmp(&lv(b)) }
}
pub mod choice { use super::*;
law!{ eq [T: PartialEq + Clone] (p: T, a: Vec<T>, q: T, b: Vec<T>) -> bool ; Choice::new(p.clone(), a.clone()) == Choice::new(q.clone(), b.clone()) ; cat(vec![p.clone()], a.clone()) == cat(vec![q.clone()], b.clone()) }
law!{ eq_of_many [T: PartialEq + Clone] (a: Vec<T>, b: Vec<T>) -> bool ; Choice::of_many(a.clone()) == Choice::of_many(b.clone()) ; a.clone() == b.clone() }
law!{ cmp [T: Ord + Clone] (a: Vec<T>, b: Vec<T>) -> Ordering ; Choice::of_many(a.clone()).cmp(&Choice::of_many(b.clone())) ; a.clone().cmp(&b.clone()) }
law!{ partial_cmp [T: PartialOrd + Clone] (a: Vec<T>, b: Vec<T>) -> Option<Ordering> ; Choice::of_many(a.clone()).partial_cmp(&Choice::of_many(b.clone())) ; a.clone().partial_cmp(&b.clone()) }
}
pub mod id { use super::*;
law!{ eq [T: PartialEq] (a: T, b: T) -> bool ; Id::new(a) == Id::new(b) ; a == b }
law!{ cmp [T: Ord] (a: T, b: T) -> Ordering ; Id::new(a).cmp(&Id::new(b)) ; a.cmp(&b) }
law!{ partial_cmp [T: PartialOrd] (a: T, b: T) -> Option<Ordering> ; Id::new(a).partial_cmp(&Id::new(b)) ; a.partial_cmp(&b) }
law!{ hash [T: Hash, H: Hasher] (a: T, h: H) -> H ; hs(&Id::new(a), h) ; hs(&a, h) }
}
pub mod writer { use super::*;
law!{ eq [W: PartialEq + Clone + Monoid, T: PartialEq] (v: W, a: T, w: W, b: T) -> bool ; Writer::new(v, a) == Writer::new(w, b) ; v == w && a == b }
law!{ cmp [W: Ord + Clone + Monoid, T: Ord] (v: W, a: T, w: W, b: T) -> Ordering ; Writer::new(v, a).cmp(&Writer::new(w, b)) ; (v, a).cmp(&(w, b)) }
}
pub mod wrapper { use super::*;
macro_rules! wr { ($m:ident, $t:ident) => { pub mod $m { use super::*;
law!{ eq [T: PartialEq] (a: T, b: T) -> bool ; $t(a) == $t(b) ; a == b }
law!{ cmp [T: Ord] (a: T, b: T) -> Ordering ; $t(a).cmp(&$t(b)) ; a.cmp(&b) }
law!{ partial_cmp [T: PartialOrd] (a: T, b: T) -> Option<Ordering> ; $t(a).partial_cmp(&$t(b)) ; a.partial_cmp(&b) }
law!{ hash [T: Hash, H: Hasher] (a: T, h: H) -> H ; hs(&$t(a), h) ; hs(&a, h) }
} } }
wr!(sum, Sum); wr!(product, Product); wr!(min, Min); wr!(max, Max);
macro_rules! wo { ($m:ident, $t:ident) => { pub mod $m { use super::*;
law!{ eq [T: PartialEq] (a: Option<T>, b: Option<T>) -> bool ; $t(a) == $t(b) ; a == b }
law!{ cmp [T: Ord] (a: Option<T>, b: Option<T>) -> Ordering ; $t(a).cmp(&$t(b)) ; a.cmp(&b) }
law!{ partial_cmp [T: PartialOrd] (a: Option<T>, b: Option<T>) -> Option<Ordering> ; $t(a).partial_cmp(&$t(b)) ; a.partial_cmp(&b) }
law!{ hash [T: Hash, H: Hasher] (a: Option<T>, h: H) -> H ; hs(&$t(a), h) ; hs(&a, h) }
} } }
wo!(first, First); wo!(last, Last);
}
pub mod error { use super::*;
pub fn mk<E>(e: E, c: Vec<String>, code: u32) -> ComposableError<E> { c.into_iter().fold(ComposableError::with_code(e, code), |acc, x| acc.with_context(x)) }
law!{ eq_plain [E: PartialEq] (a: E, b: E) -> bool ; ComposableError::new(a) == ComposableError::new(b) ; a == b }
law!{ eq_code [E: PartialEq] (a: E, i: u32, b: E, j: u32) -> bool ; ComposableError::with_code(a, i) == ComposableError::with_code(b, j) ; a == b && i == j }
law!{ eq_context [E: PartialEq] (a: E, c: String, b: E, d: String) -> bool ; ComposableError::new(a).with_context(c) == ComposableError::new(b).with_context(d) ; a == b && c == d }
law!{ eq_context_none [E: PartialEq] (a: E, c: String, b: E) -> bool ; ComposableError::new(a).with_context(c) == ComposableError::new(b) ; { let _ = a == b; false } }
law!{ eq_context_two [E: PartialEq] (a: E, c: String, c2: String, b: E, d: String, d2: String) -> bool ; ComposableError::new(a).with_context(c).with_context(c2) == ComposableError::new(b).with_context(d).with_context(d2) ; a == b && c == d && c2 == d2 }
law!{ eq_context_item [] (c: String, d: String) -> bool ; ErrorContext::new(c) == ErrorContext::new(d) ; c == d }
law!{ eq_io [] (a: IOError, b: IOError) -> bool ; a == b ; match (a, b) { (IOError::Other(x), IOError::Other(y)) => x == y, (IOError::ValueNotSet, IOError::ValueNotSet) => true, _ => false } }
#[allow(deprecated)]
law!{ eq_app_plain [M: PartialEq] (a: M, b: M) -> bool ; { let x: AppError<M, u8> = AppError::new(a); let y: AppError<M, u8> = AppError::new(b); x == y } ; a == b }
law!{ eq_app [M: PartialEq, C: PartialEq] (a: M, c: C, b: M, d: C) -> bool ; error_with_context(a, c) == error_with_context(b, d) ; a == b && c == d }
law!{ eq_app_none [M: PartialEq, C: PartialEq] (a: M, c: C, b: M) -> bool ; error_with_context(a, c) == AppError::new(b) ; { let _ = a == b; false } }
law!{ eq_app_none_right [M: PartialEq, C: PartialEq] (a: M, c: C, b: M) -> bool ; AppError::new(b) == error_with_context(a, c) ; { let _ = b == a; false } }
}
