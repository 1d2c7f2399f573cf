use super::refs::*;
use crate::error::{either_to_result, result_to_either, validated_to_result, result_to_validated, either_to_validated, validated_to_either};
use crate::error::convert::{collect_errors, split_validated_errors};
use crate::utils::error_utils::{WithError, ResultExt};
use crate::datatypes::maybe::{MaybeError, MaybeExt};
law!{ either_result [A, E] (m: Either<E, A>) -> Result<A, E> ; either_to_result(m) ; match m { Either::Right(x) => Ok(x), Either::Left(e) => Err(e) } }
law!{ result_either [A, E] (m: Result<A, E>) -> Either<E, A> ; result_to_either(m) ; match m { Ok(x) => Either::Right(x), Err(e) => Either::Left(e) } }
law!{ result_either_round [A, E] (m: Result<A, E>) -> Result<A, E> ; either_to_result(result_to_either(m)) ; m }
law!{ either_result_round [A, E] (m: Either<E, A>) -> Either<E, A> ; result_to_either(either_to_result(m)) ; m }
law!{ result_validated [A: Clone, E: Clone] (m: Result<A, E>) -> Validated<E, A> ; result_to_validated(m) ; match m { Ok(x) => Validated::Valid(x), Err(e) => inv(one(e)) } }
law!{ either_validated [A: Clone, E: Clone] (m: Either<E, A>) -> Validated<E, A> ; either_to_validated(m) ; match m { Either::Right(x) => Validated::Valid(x), Either::Left(e) => inv(one(e)) } }
law!{ validated_result_valid [A: Clone, E: Clone] (x: A) -> Result<A, E> ; validated_to_result(Validated::Valid(x)) ; Ok(x) }
law!{ validated_result_invalid [A: Clone, E: Clone] (e: E, es: Vec<E>) -> Result<A, E> ; validated_to_result(inv(self::cat(one(e), es))) ; Err(e) }
law!{ validated_either_valid [A: Clone, E: Clone] (x: A) -> Either<E, A> ; validated_to_either(Validated::Valid(x)) ; Either::Right(x) }
law!{ validated_either_invalid [A: Clone, E: Clone] (e: E, es: Vec<E>) -> Either<E, A> ; validated_to_either(inv(self::cat(one(e), es))) ; Either::Left(e) }
law!{ result_validated_round [A: Clone, E: Clone] (m: Result<A, E>) -> Result<A, E> ; validated_to_result(result_to_validated(m)) ; m }
law!{ either_validated_round [A: Clone, E: Clone] (m: Either<E, A>) -> Either<E, A> ; validated_to_either(either_to_validated(m)) ; m }
law!{ split_errors [A: Clone, E: Clone] (m: Validated<E, A>) -> Vec<Result<A, E>> ; split_validated_errors(m) ; match m { Validated::Valid(x) => one(Ok(x)), Validated::Invalid(e) => { let mut r = Vec::new(); for x in e { r.push(Err(x)); } r } } }
law!{ collect_errs [E: Clone] (v: Vec<E>) -> Validated<E, ()> ; collect_errors(v) ; if v.is_empty() { Validated::Valid(()) } else { inv(v) } }
law!{ collect_errs_any [E: Clone, IT: Iterator<Item = E> + Clone] (v: IT) -> Validated<E, ()> ; collect_errors(v) ; { let v: Vec<E> = v.collect(); if v.is_empty() { Validated::Valid(()) } else { inv(v) } } }
law!{ with_result [A, E: Clone] (m: Result<A, E>) -> Result<A, E> ; WithError::<E>::to_result(m) ; m }
law!{ with_either [A, E] (m: Either<E, A>) -> Result<A, E> ; WithError::<E>::to_result(m) ; match m { Either::Right(x) => Ok(x), Either::Left(e) => Err(e) } }
law!{ with_validated_valid [A: Clone, E: Clone] (x: A) -> Result<A, E> ; WithError::<E>::to_result(Validated::<E, A>::Valid(x)) ; Ok(x) }
law!{ with_validated_invalid [A: Clone, E: Clone] (e: E, es: Vec<E>) -> Result<A, E> ; WithError::<E>::to_result(inv::<E, A>(self::cat(one(e), es))) ; Err(e) }
law!{ with_maybe [A] (m: Maybe<A>) -> Result<A, MaybeError> ; WithError::<MaybeError>::to_result(m) ; match m { Maybe::Just(x) => Ok(x), Maybe::Nothing => Err(MaybeError::ValueNotPresent) } }
law!{ ext_to_validated [A, E] (m: Result<A, E>) -> Validated<E, A> ; ResultExt::to_validated(m) ; match m { Ok(x) => Validated::Valid(x), Err(e) => inv(one(e)) } }
law!{ ext_to_either [A, E] (m: Result<A, E>) -> Either<E, A> ; ResultExt::to_either(m) ; match m { Ok(x) => Either::Right(x), Err(e) => Either::Left(e) } }
law!{ utils_result_either [A, E] (m: Result<A, E>) -> Either<E, A> ; crate::utils::error_utils::result_to_either(m) ; match m { Ok(x) => Either::Right(x), Err(e) => Either::Left(e) } }
law!{ utils_either_result [A, E] (m: Either<E, A>) -> Result<A, E> ; crate::utils::error_utils::either_to_result(m) ; match m { Either::Right(x) => Ok(x), Either::Left(e) => Err(e) } }
law!{ either_to_result_method [A, E] (m: Either<E, A>) -> Result<A, E> ; m.to_result() ; match m { Either::Right(x) => Ok(x), Either::Left(e) => Err(e) } }
law!{ either_from_result [A, E] (m: Result<A, E>) -> Either<E, A> ; Either::from_result(m) ; match m { Ok(x) => Either::Right(x), Err(e) => Either::Left(e) } }
law!{ either_right_option [A, E] (m: Either<E, A>) -> Option<A> ; m.right_option() ; match m { Either::Right(x) => Some(x), Either::Left(_) => None } }
law!{ either_left_option [A, E] (m: Either<E, A>) -> Option<E> ; m.left_option() ; match m { Either::Right(_) => None, Either::Left(x) => Some(x) } }
law!{ either_is_left [A, E] (m: &Either<E, A>) -> bool ; m.is_left() ; matches!(m, Either::Left(_)) }
law!{ either_is_right [A, E] (m: &Either<E, A>) -> bool ; m.is_right() ; matches!(m, Either::Right(_)) }
law!{ either_unwrap_right [A, E] (x: A) -> A ; Either::<E, A>::Right(x).unwrap_right() ; x }
law!{ either_unwrap_left [A, E] (x: E) -> E ; Either::<E, A>::Left(x).unwrap_left() ; x }
law!{ either_unwrap [A, E] (x: A) -> A ; Either::<E, A>::Right(x).unwrap() ; x }
law!{ either_left_value [A, E] (x: E) -> E ; Either::<E, A>::left(x).left_value() ; x }
law!{ either_right_value [A, E] (x: A) -> A ; Either::<E, A>::right(x).right_value() ; x }
law!{ either_right_ref [A: Clone, E] (x: A) -> A ; Either::<E, A>::right(x).right_ref().clone() ; x }
law!{ either_left_ref [A, E: Clone] (x: E) -> E ; Either::<E, A>::left(x).left_ref().clone() ; x }
law!{ either_into_iter [A, E] (m: Either<E, A>) -> Vec<A> ; { let mut r = Vec::new(); for x in m { r.push(x); } r } ; match m { Either::Right(x) => one(x), Either::Left(_) => Vec::new() } }
law!{ either_ref_iter [A: Clone, E] (m: &Either<E, A>) -> Vec<A> ; { let mut r = Vec::new(); for x in m { r.push(x.clone()); } r } ; match m { Either::Right(x) => one(x.clone()), Either::Left(_) => Vec::new() } }
law!{ either_left_iter [A, E] (m: Either<E, A>) -> Vec<E> ; { let mut r = Vec::new(); for x in m.left_iter() { r.push(x); } r } ; match m { Either::Left(x) => one(x), Either::Right(_) => Vec::new() } }
law!{ either_left_iter_ref [A, E: Clone] (m: &Either<E, A>) -> Vec<E> ; { let mut r = Vec::new(); for x in m.left_iter_ref() { r.push(x.clone()); } r } ; match m { Either::Left(x) => one(x.clone()), Either::Right(_) => Vec::new() } }
law!{ maybe_from_option [A] (m: Option<A>) -> Maybe<A> ; Maybe::from_option(m) ; match m { Some(x) => Maybe::Just(x), None => Maybe::Nothing } }
law!{ maybe_from_option_trait [A] (m: Option<A>) -> Maybe<A> ; Maybe::from(m) ; match m { Some(x) => Maybe::Just(x), None => Maybe::Nothing } }
law!{ maybe_to_option [A] (m: Maybe<A>) -> Option<A> ; m.to_option() ; match m { Maybe::Just(x) => Some(x), Maybe::Nothing => None } }
law!{ maybe_to_option_trait [A] (m: Maybe<A>) -> Option<A> ; Option::from(m) ; match m { Maybe::Just(x) => Some(x), Maybe::Nothing => None } }
law!{ maybe_option_round [A] (m: Maybe<A>) -> Maybe<A> ; Maybe::from_option(m.to_option()) ; m }
law!{ option_maybe_round [A] (m: Option<A>) -> Option<A> ; Maybe::from_option(m).to_option() ; m }
law!{ maybe_to_result [A, E] (m: Maybe<A>, e: E) -> Result<A, E> ; Maybe::to_result(m, e) ; match m { Maybe::Just(x) => Ok(x), Maybe::Nothing => Err(e) } }
law!{ maybe_ext_to_result [A, E] (m: Maybe<A>, e: E) -> Result<A, E> ; MaybeExt::to_result(m, e) ; match m { Maybe::Just(x) => Ok(x), Maybe::Nothing => Err(e) } }
law!{ maybe_to_standard_result [A] (m: Maybe<A>) -> Result<A, MaybeError> ; m.to_standard_result() ; match m { Maybe::Just(x) => Ok(x), Maybe::Nothing => Err(MaybeError::ValueNotPresent) } }
law!{ maybe_try_unwrap [A] (m: Maybe<A>) -> Option<A> ; m.try_unwrap().ok() ; match m { Maybe::Just(x) => Some(x), Maybe::Nothing => None } }
law!{ maybe_ext_try_unwrap [A] (m: Maybe<A>) -> Option<A> ; MaybeExt::try_unwrap(m).ok() ; match m { Maybe::Just(x) => Some(x), Maybe::Nothing => None } }
law!{ maybe_from_result [A, E] (m: Result<A, E>) -> Maybe<A> ; Maybe::from(m) ; match m { Ok(x) => Maybe::Just(x), Err(_) => Maybe::Nothing } }
law!{ maybe_as_ref [A: Clone] (m: &Maybe<A>) -> Option<A> ; m.as_ref().cloned() ; match m { Maybe::Just(x) => Some(x.clone()), Maybe::Nothing => None } }
law!{ maybe_as_option [A: Clone] (m: &Maybe<A>) -> Option<A> ; m.as_option().cloned() ; match m { Maybe::Just(x) => Some(x.clone()), Maybe::Nothing => None } }
law!{ maybe_is_just [A] (m: &Maybe<A>) -> bool ; m.is_just() ; matches!(m, Maybe::Just(_)) }
law!{ maybe_is_nothing [A] (m: &Maybe<A>) -> bool ; m.is_nothing() ; matches!(m, Maybe::Nothing) }
law!{ maybe_to_vec [A] (m: Maybe<A>) -> Vec<A> ; m.to_vec() ; match m { Maybe::Just(x) => one(x), Maybe::Nothing => Vec::new() } }
law!{ maybe_iter [A: Clone] (m: &Maybe<A>) -> Vec<A> ; { let mut r = Vec::new(); for x in m.iter() { r.push(x.clone()); } r } ; match m { Maybe::Just(x) => one(x.clone()), Maybe::Nothing => Vec::new() } }
law!{ maybe_into_iter [A] (m: Maybe<A>) -> Vec<A> ; { let mut r = Vec::new(); for x in m { r.push(x); } r } ; match m { Maybe::Just(x) => one(x), Maybe::Nothing => Vec::new() } }
law!{ maybe_ref_iter [A: Clone] (m: &Maybe<A>) -> Vec<A> ; { let mut r = Vec::new(); for x in m { r.push(x.clone()); } r } ; match m { Maybe::Just(x) => one(x.clone()), Maybe::Nothing => Vec::new() } }
law!{ maybe_from_iter [A] (v: Vec<A>) -> Maybe<A> ; v.into_iter().collect::<Maybe<A>>() ; { for x in v { return Maybe::Just(x); } Maybe::Nothing } }
law!{ maybe_from_iter_any [A, IT: Iterator<Item = A> + Clone] (v: IT) -> Maybe<A> ; v.into_iter().collect::<Maybe<A>>() ; { let v: Vec<A> = v.collect(); { for x in v { return Maybe::Just(x); } Maybe::Nothing } } }
law!{ maybe_unwrap [A] (x: A) -> A ; Maybe::Just(x).unwrap() ; x }
law!{ maybe_into_value [A] (x: A) -> A ; Identity::into_value(Maybe::Just(x)) ; x }
law!{ maybe_value [A: Clone] (x: A) -> A ; Identity::value(&Maybe::Just(x)).clone() ; x }
law!{ either_into_value [L: Clone, A: Clone] (x: A) -> A ; Identity::into_value(Either::<L, A>::Right(x)) ; x }
law!{ either_value [L: Clone, A: Clone] (x: A) -> A ; Identity::value(&Either::<L, A>::Right(x)).clone() ; x }
law!{ id_into_value [A] (x: A) -> A ; Identity::into_value(Id::new(x)) ; x }
law!{ id_value [A: Clone] (x: A) -> A ; Identity::value(&Id::new(x)).clone() ; x }
law!{ id_from [A] (x: A) -> A ; <Id<A> as From<A>>::from(x).into_inner() ; x }
law!{ id_then [A, B] (x: Id<A>, y: Id<B>) -> Id<B> ; x.then(y) ; y }
law!{ id_from_ref [A: Clone] (x: &A) -> Id<A> ; Id::from_ref(x) ; Id::new(x.clone()) }
law!{ validated_from_result [A: Clone, E: Clone] (m: &Result<A, E>) -> Validated<E, A> ; Validated::from_result(m) ; match m { Ok(x) => Validated::Valid(x.clone()), Err(e) => inv(one(e.clone())) } }
law!{ validated_from_result_owned [A: Clone, E: Clone] (m: Result<A, E>) -> Validated<E, A> ; Validated::from_result_owned(m) ; match m { Ok(x) => Validated::Valid(x), Err(e) => inv(one(e)) } }
law!{ validated_to_result_ok [A: Clone, E: Clone] (x: A) -> Result<A, E> ; Validated::<E, A>::Valid(x).to_result() ; Ok(x) }
law!{ validated_to_result_err [A: Clone, E: Clone] (e: E, es: Vec<E>) -> Result<A, E> ; inv::<E, A>(self::cat(one(e), es)).to_result() ; Err(e) }
law!{ validated_to_result_owned_ok [A: Clone, E: Clone] (x: A) -> Result<A, E> ; Validated::<E, A>::Valid(x).to_result_owned() ; Ok(x) }
law!{ validated_to_result_owned_err [A: Clone, E: Clone] (e: E, es: Vec<E>) -> Result<A, E> ; inv::<E, A>(self::cat(one(e), es)).to_result_owned() ; Err(e) }
law!{ validated_from_option [A: Clone, E: Clone] (m: &Option<A>, e: &E) -> Validated<E, A> ; Validated::from_option(m, e) ; match m { Some(x) => Validated::Valid(x.clone()), None => inv(one(e.clone())) } }
law!{ validated_from_option_owned [A: Clone, E: Clone] (m: Option<A>, e: E) -> Validated<E, A> ; Validated::from_option_owned(m, e) ; match m { Some(x) => Validated::Valid(x), None => inv(one(e)) } }
law!{ validated_from_option_with [A: Clone, E: Clone, F: Fn() -> E] (m: &Option<A>, f: F) -> Validated<E, A> ; Validated::from_option_with(m, &f) ; match m { Some(x) => Validated::Valid(x.clone()), None => inv(one(f())) } }
law!{ validated_from_option_with_owned [A: Clone, E: Clone, F: FnOnce() -> E] (m: Option<A>, f: F) -> Validated<E, A> ; Validated::from_option_with_owned(m, f) ; match m { Some(x) => Validated::Valid(x), None => inv(one(f())) } }
law!{ validated_to_option [A: Clone, E: Clone] (m: &Validated<E, A>) -> Option<A> ; m.to_option() ; match m { Validated::Valid(x) => Some(x.clone()), Validated::Invalid(_) => None } }
law!{ validated_as_ref [A: Clone, E: Clone] (m: &Validated<E, A>) -> Option<A> ; Validated::as_ref(m).cloned() ; match m { Validated::Valid(x) => Some(x.clone()), Validated::Invalid(_) => None } }
law!{ validated_into_value [A, E] (m: Validated<E, A>) -> Result<A, Vec<E>> ; match m.into_value() { Ok(x) => Ok(x), Err(e) => Err(e.into_vec()) } ; match m { Validated::Valid(x) => Ok(x), Validated::Invalid(e) => Err(e.into_vec()) } }
law!{ validated_into_error_payload [A, E] (m: Validated<E, A>) -> Result<Vec<E>, A> ; match m.into_error_payload() { Ok(e) => Ok(e.into_vec()), Err(x) => Err(x) } ; match m { Validated::Valid(x) => Err(x), Validated::Invalid(e) => Ok(e.into_vec()) } }
law!{ validated_unwrap [A: Clone, E: Clone] (x: A) -> A ; Validated::<E, A>::Valid(x).unwrap() ; x }
law!{ validated_unwrap_owned [A, E: Debug] (x: A) -> A ; Validated::<E, A>::Valid(x).unwrap_owned() ; x }
law!{ validated_unwrap_invalid [A: Clone, E: Clone] (e: Vec<E>) -> Vec<E> ; inv::<E, A>(e).unwrap_invalid() ; e }
law!{ validated_unwrap_invalid_owned [A: Debug, E] (e: Vec<E>) -> Vec<E> ; inv::<E, A>(e).unwrap_invalid_owned().into_vec() ; e }
law!{ validated_is_valid [A, E] (m: &Validated<E, A>) -> (bool, bool) ; (m.is_valid(), m.is_invalid()) ; match m { Validated::Valid(_) => (true, false), Validated::Invalid(_) => (false, true) } }
law!{ validated_iter [A: Clone, E] (m: &Validated<E, A>) -> Vec<A> ; { let mut r = Vec::new(); for x in m.iter() { r.push(x.clone()); } r } ; match m { Validated::Valid(x) => one(x.clone()), Validated::Invalid(_) => Vec::new() } }
law!{ validated_into_iter [A, E] (m: Validated<E, A>) -> Vec<A> ; { let mut r = Vec::new(); for x in m { r.push(x); } r } ; match m { Validated::Valid(x) => one(x), Validated::Invalid(_) => Vec::new() } }
law!{ pure_option [A: Clone] (x: &A) -> Option<A> ; <Option<u8> as Pure>::pure(x) ; Some(x.clone()) }
law!{ pure_result [A: Clone, E: Clone] (x: &A) -> Result<A, E> ; <Result<u8, E> as Pure>::pure(x) ; Ok(x.clone()) }
law!{ pure_vec [A: Clone] (x: &A) -> Vec<A> ; <Vec<u8> as Pure>::pure(x) ; one(x.clone()) }
law!{ pure_maybe [A: Clone] (x: &A) -> Maybe<A> ; <Maybe<u8> as Pure>::pure(x) ; Maybe::Just(x.clone()) }
law!{ pure_either [L, A: Clone] (x: &A) -> Either<L, A> ; <Either<L, u8> as Pure>::pure(x) ; Either::Right(x.clone()) }
law!{ pure_id [A: Clone] (x: &A) -> Id<A> ; <Id<u8> as Pure>::pure(x) ; Id::new(x.clone()) }
law!{ pure_choice [A: Clone] (x: &A) -> Choice<A> ; <Choice<u8> as Pure>::pure(x) ; Choice::of_many(one(x.clone())) }
law!{ pure_validated [E: Clone, A: Clone] (x: &A) -> Validated<E, A> ; <Validated<E, u8> as Pure>::pure(x) ; Validated::Valid(x.clone()) }
law!{ pure_owned_option [A: Clone] (x: A) -> Option<A> ; <Option<u8> as Pure>::pure_owned(x) ; Some(x) }
law!{ pure_owned_result [A: Clone, E: Clone] (x: A) -> Result<A, E> ; <Result<u8, E> as Pure>::pure_owned(x) ; Ok(x) }
law!{ pure_owned_vec [A: Clone] (x: A) -> Vec<A> ; <Vec<u8> as Pure>::pure_owned(x) ; one(x) }
law!{ pure_owned_validated [E: Clone, A: Clone] (x: A) -> Validated<E, A> ; <Validated<E, u8> as Pure>::pure_owned(x) ; Validated::Valid(x) }
