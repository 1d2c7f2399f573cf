use super::refs::*;
use crate::traits::monad_error::{MonadError, ErrorMapper};
use crate::error::ErrorOps;
use crate::utils::error_utils::{WithError, ResultExt};
law!{ result_throw [A: Clone, E: Clone + Debug] (e: E) -> Result<A, E> ; <Result<u8, E> as MonadError<E>>::throw(e) ; Err(e) }
law!{ result_catch [A: Clone, E: Clone + Debug, F: Fn(&E) -> Result<A, E>] (m: &Result<A, E>, f: F) -> Result<A, E> ; m.catch(f) ; match m { Ok(x) => Ok(x.clone()), Err(e) => f(e) } }
law!{ result_catch_owned [A: Clone, E: Clone + Debug, F: Fn(E) -> Result<A, E>] (m: Result<A, E>, f: F) -> Result<A, E> ; m.catch_owned(f) ; match m { Ok(x) => Ok(x), Err(e) => f(e) } }
law!{ result_throw_catch [A: Clone, E: Clone + Debug, F: Fn(&E) -> Result<A, E>] (e: E, f: F) -> Result<A, E> ; <Result<A, E> as MonadError<E>>::throw::<A>(e).catch(f) ; f(&e) }
law!{ result_catch_throw [A: Clone, E: Clone + Debug] (m: Result<A, E>) -> Result<A, E> ; m.catch(|e| <Result<A, E> as MonadError<E>>::throw(e.clone())) ; m }
law!{ result_map_error_to [A: Clone, E, G, F: Fn(&E) -> G] (m: &Result<A, E>, f: F) -> Result<A, G> ; m.map_error_to(f) ; match m { Ok(x) => Ok(x.clone()), Err(e) => Err(f(e)) } }
law!{ result_map_error_to_owned [A: Clone, E, G, F: Fn(E) -> G] (m: Result<A, E>, f: F) -> Result<A, G> ; m.map_error_to_owned(f) ; match m { Ok(x) => Ok(x), Err(e) => Err(f(e)) } }
law!{ option_throw [A: Clone] () -> Option<A> ; <Option<u8> as MonadError<()>>::throw(()) ; None }
law!{ option_catch [A: Clone, F: Fn(&()) -> Option<A>] (m: &Option<A>, f: F) -> Option<A> ; m.catch(f) ; match m { Some(x) => Some(x.clone()), None => f(&()) } }
law!{ option_catch_owned [A: Clone, F: Fn(()) -> Option<A>] (m: Option<A>, f: F) -> Option<A> ; m.catch_owned(f) ; match m { Some(x) => Some(x), None => f(()) } }
law!{ option_map_error_to [A: Clone, G, F: Fn(&()) -> G] (m: &Option<A>, f: F) -> Result<A, G> ; m.map_error_to(f) ; match m { Some(x) => Ok(x.clone()), None => Err(f(&())) } }
law!{ option_map_error_to_owned [A: Clone, G, F: Fn(()) -> G] (m: Option<A>, f: F) -> Result<A, G> ; m.map_error_to_owned(f) ; match m { Some(x) => Ok(x), None => Err(f(())) } }
law!{ result_recover [A: Clone, E: Clone, F: FnOnce(E) -> Result<A, E>] (m: Result<A, E>, f: F) -> Result<A, E> ; m.recover(f) ; match m { Ok(x) => Ok(x), Err(e) => f(e) } }
law!{ either_recover [A: Clone, E: Clone, F: FnOnce(E) -> Either<E, A>] (m: Either<E, A>, f: F) -> Either<E, A> ; m.recover(f) ; match m { Either::Right(x) => Either::Right(x), Either::Left(e) => f(e) } }
law!{ result_bimap_result [A: Clone, E: Clone, B, G, S: FnOnce(A) -> B, F: FnOnce(E) -> G] (m: Result<A, E>, s: S, f: F) -> Result<B, G> ; m.bimap_result(s, f) ; match m { Ok(x) => Ok(s(x)), Err(e) => Err(f(e)) } }
law!{ either_bimap_result [A: Clone, E: Clone, B, G, S: FnOnce(A) -> B, F: FnOnce(E) -> G] (m: Either<E, A>, s: S, f: F) -> Result<B, G> ; m.bimap_result(s, f) ; match m { Either::Right(x) => Ok(s(x)), Either::Left(e) => Err(f(e)) } }
law!{ result_fmap_error [A, E: Clone, G: Clone, F: Fn(E) -> G] (m: Result<A, E>, f: F) -> Result<A, G> ; WithError::<E>::fmap_error(m, f) ; match m { Ok(x) => Ok(x), Err(e) => Err(f(e)) } }
law!{ either_fmap_error [A, E, G: Clone, F: Fn(E) -> G] (m: Either<E, A>, f: F) -> Either<G, A> ; WithError::<E>::fmap_error(m, f) ; match m { Either::Right(x) => Either::Right(x), Either::Left(e) => Either::Left(f(e)) } }
law!{ validated_fmap_error [A: Clone, E: Clone, G: Clone, F: Fn(E) -> G] (m: Validated<E, A>, f: F) -> Validated<G, A> ; WithError::<E>::fmap_error(m, f) ; match m { Validated::Valid(x) => Validated::Valid(x), Validated::Invalid(e) => { let mut r = Vec::new(); for x in e { r.push(f(x)); } inv(r) } } }
law!{ result_unwrap_or_default [A: Default, E] (m: Result<A, E>) -> A ; ResultExt::unwrap_or_default(m) ; match m { Ok(x) => x, Err(_) => A::default() } }
law!{ result_ext_bimap [A, E, B, G, S: FnOnce(A) -> B, F: FnOnce(E) -> G] (m: Result<A, E>, s: S, f: F) -> Result<B, G> ; ResultExt::bimap(m, s, f) ; match m { Ok(x) => Ok(s(x)), Err(e) => Err(f(e)) } }
law!{ validated_recover_valid [A, E, F: FnMut(E) -> Validated<E, A>] (x: A, f: F) -> Validated<E, A> ; Validated::Valid(x).recover_all(f) ; Validated::Valid(x) }
law!{ validated_recover_one [A, E, F: Fn(E) -> Validated<E, A>] (e: E, f: F) -> Validated<E, A> ; inv(one(e)).recover_all(|e| f(e)) ; f(e) }
law!{ validated_recover_fail [A: Clone, E: Clone, F: Fn(E) -> E] (m: Validated<E, A>, f: F) -> Validated<E, A> ; m.recover_all(|e| inv(one(f(e)))) ; match m { Validated::Valid(x) => Validated::Valid(x), Validated::Invalid(e) => { let mut r = Vec::new(); for x in e { r.push(f(x)); } inv(r) } } }
law!{ validated_recover_fail_many [A: Clone, E: Clone, F: Fn(E) -> Vec<E>] (m: Validated<E, A>, f: F) -> Validated<E, A> ; m.recover_all(|e| inv(f(e))) ; match m { Validated::Valid(x) => Validated::Valid(x), Validated::Invalid(e) => { let mut r = Vec::new(); for x in e { for y in f(x) { r.push(y); } } inv(r) } } }
vlaw!{ validated_recover_succeed [A: Clone, E: Clone, F: Fn(E) -> A] (e: E, es: Vec<E>, f: F) -> Validated<E, A> ; inv(self::cat(one(e), es)).recover_all(|e| Validated::Valid(f(e))) ; Validated::Valid(f(e)) }
law!{ validated_recover_all_at_once [A, E, F: FnOnce(Vec<E>) -> Validated<E, A>] (m: Validated<E, A>, f: F) -> Validated<E, A> ; m.recover_all_at_once(f) ; match m { Validated::Valid(x) => Validated::Valid(x), Validated::Invalid(e) => f(e.into_vec()) } }
law!{ validated_recover_with [A, E] (m: Validated<E, A>, d: A) -> Validated<E, A> ; m.recover_with(d) ; match m { Validated::Valid(x) => Validated::Valid(x), Validated::Invalid(_) => Validated::Valid(d) } }
law!{ validated_unwrap_or [A: Clone, E: Clone] (m: &Validated<E, A>, d: &A) -> A ; m.unwrap_or(d) ; match m { Validated::Valid(x) => x.clone(), Validated::Invalid(_) => d.clone() } }
law!{ maybe_unwrap_or [A] (m: Maybe<A>, d: A) -> A ; m.unwrap_or(d) ; match m { Maybe::Just(x) => x, Maybe::Nothing => d } }
law!{ maybe_unwrap_or_else [A, F: FnOnce() -> A] (m: Maybe<A>, f: F) -> A ; m.unwrap_or_else(f) ; match m { Maybe::Just(x) => x, Maybe::Nothing => f() } }
law!{ maybe_fmap_or [A, B, F: FnOnce(A) -> B] (m: Maybe<A>, d: B, f: F) -> B ; m.fmap_or(d, f) ; match m { Maybe::Just(x) => f(x), Maybe::Nothing => d } }
law!{ maybe_tap [A, F: FnOnce(&A)] (m: Maybe<A>, f: F) -> Maybe<A> ; m.tap(f) ; match m { Maybe::Just(x) => { f(&x); Maybe::Just(x) }, Maybe::Nothing => Maybe::Nothing } }
law!{ either_unwrap_or [L, A] (m: Either<L, A>, d: A) -> A ; m.unwrap_or(d) ; match m { Either::Right(x) => x, Either::Left(_) => d } }
law!{ either_right_or [L, A] (m: Either<L, A>, d: A) -> A ; m.right_or(d) ; match m { Either::Right(x) => x, Either::Left(_) => d } }
law!{ either_left_or [L, A] (m: Either<L, A>, d: L) -> L ; m.left_or(d) ; match m { Either::Right(_) => d, Either::Left(x) => x } }
law!{ category_result_lift [A: Clone, E: Clone] (x: A) -> Result<A, E> ; <Result<(), E> as crate::error::ErrorCategory<E>>::lift(x) ; Ok(x) }
law!{ category_result_handle [A: Clone, E: Clone] (e: E) -> Result<A, E> ; <Result<(), E> as crate::error::ErrorCategory<E>>::handle_error(e) ; Err(e) }
law!{ category_either_lift [A: Clone, E: Clone] (x: A) -> Either<E, A> ; <Either<E, ()> as crate::error::ErrorCategory<E>>::lift(x) ; Either::Right(x) }
law!{ category_either_handle [A: Clone, E: Clone] (e: E) -> Either<E, A> ; <Either<E, ()> as crate::error::ErrorCategory<E>>::handle_error(e) ; Either::Left(e) }
law!{ category_validated_lift [A: Clone, E: Clone] (x: A) -> Validated<E, A> ; <Validated<E, ()> as crate::error::ErrorCategory<E>>::lift(x) ; Validated::Valid(x) }
law!{ category_validated_handle [A: Clone, E: Clone] (e: E) -> Validated<E, A> ; <Validated<E, ()> as crate::error::ErrorCategory<E>>::handle_error(e) ; inv(one(e)) }
