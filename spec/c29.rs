//! The documented partial operations panic in the documented cases and in no others.
use super::refs::*;
law!{ option_value [T: Clone] (a: Option<T>) -> T ; Identity::value(&a).clone() ; match a { Some(x) => x, None => panic!() } }
law!{ option_into_value [T: Clone] (a: Option<T>) -> T ; Identity::into_value(a) ; match a { Some(x) => x, None => panic!() } }
law!{ result_value [T: Clone, E: Clone + std::fmt::Debug] (a: Result<T, E>) -> T ; Identity::value(&a).clone() ; match a { Ok(x) => x, Err(_) => panic!() } }
law!{ result_into_value [T: Clone, E: Clone + std::fmt::Debug] (a: Result<T, E>) -> T ; Identity::into_value(a) ; match a { Ok(x) => x, Err(_) => panic!() } }
law!{ maybe_value [T: Clone] (a: Maybe<T>) -> T ; Identity::value(&a).clone() ; match a { Maybe::Just(x) => x, Maybe::Nothing => panic!() } }
law!{ maybe_into_value [T: Clone] (a: Maybe<T>) -> T ; Identity::into_value(a) ; match a { Maybe::Just(x) => x, Maybe::Nothing => panic!() } }
law!{ maybe_unwrap [T: Clone] (a: Maybe<T>) -> T ; a.unwrap() ; match a { Maybe::Just(x) => x, Maybe::Nothing => panic!() } }
law!{ either_value [L: Clone, R: Clone] (a: Either<L, R>) -> R ; Identity::value(&a).clone() ; match a { Either::Right(x) => x, Either::Left(_) => panic!() } }
law!{ either_into_value [L: Clone, R: Clone] (a: Either<L, R>) -> R ; Identity::into_value(a) ; match a { Either::Right(x) => x, Either::Left(_) => panic!() } }
law!{ either_unwrap [L: Clone, R: Clone] (a: Either<L, R>) -> R ; a.unwrap() ; match a { Either::Right(x) => x, Either::Left(_) => panic!() } }
law!{ either_unwrap_right [L: Clone, R: Clone] (a: Either<L, R>) -> R ; a.unwrap_right() ; match a { Either::Right(x) => x, Either::Left(_) => panic!() } }
law!{ either_unwrap_left [L: Clone, R: Clone] (a: Either<L, R>) -> L ; a.unwrap_left() ; match a { Either::Left(x) => x, Either::Right(_) => panic!() } }
law!{ either_left_value [L: Clone, R: Clone] (a: Either<L, R>) -> L ; a.left_value() ; match a { Either::Left(x) => x, Either::Right(_) => panic!() } }
law!{ either_right_value [L: Clone, R: Clone] (a: Either<L, R>) -> R ; a.right_value() ; match a { Either::Right(x) => x, Either::Left(_) => panic!() } }
law!{ either_left_ref [L: Clone, R: Clone] (a: Either<L, R>) -> L ; a.left_ref().clone() ; match a { Either::Left(x) => x, Either::Right(_) => panic!() } }
law!{ either_right_ref [L: Clone, R: Clone] (a: Either<L, R>) -> R ; a.right_ref().clone() ; match a { Either::Right(x) => x, Either::Left(_) => panic!() } }
law!{ either_left_mut [L: Clone, R: Clone] (a: Either<L, R>) -> L ; { let mut a = a; a.left_mut().clone() } ; match a { Either::Left(x) => x, Either::Right(_) => panic!() } }
law!{ either_left_mut_write [L: Clone, R: Clone] (a: Either<L, R>, x: L) -> Either<L, R> ; { let mut a = a; *a.left_mut() = x; a } ; match a { Either::Left(_) => Either::Left(x), Either::Right(_) => panic!() } }
law!{ validated_value [E: Clone, A: Clone] (a: Validated<E, A>) -> A ; Identity::value(&a).clone() ; match a { Validated::Valid(x) => x, Validated::Invalid(_) => panic!() } }
law!{ validated_into_value [E: Clone, A: Clone] (a: Validated<E, A>) -> A ; Identity::into_value(a) ; match a { Validated::Valid(x) => x, Validated::Invalid(_) => panic!() } }
law!{ validated_unwrap [E: Clone, A: Clone] (a: Validated<E, A>) -> A ; a.unwrap() ; match a { Validated::Valid(x) => x, Validated::Invalid(_) => panic!() } }
law!{ validated_unwrap_owned [E: Clone + std::fmt::Debug, A: Clone] (a: Validated<E, A>) -> A ; a.unwrap_owned() ; match a { Validated::Valid(x) => x, Validated::Invalid(_) => panic!() } }
law!{ validated_unwrap_invalid [E: Clone, A: Clone] (a: Validated<E, A>) -> Vec<E> ; a.unwrap_invalid() ; match a { Validated::Invalid(e) => e.into_vec(), Validated::Valid(_) => panic!() } }
law!{ validated_unwrap_invalid_owned [E: Clone, A: Clone + std::fmt::Debug] (a: Validated<E, A>) -> Vec<E> ; a.unwrap_invalid_owned().into_vec() ; match a { Validated::Invalid(e) => e.into_vec(), Validated::Valid(_) => panic!() } }
law!{ validated_as_ref [E: Clone, A: Clone] (a: Validated<E, A>) -> A ; AsRef::<A>::as_ref(&a).clone() ; match a { Validated::Valid(x) => x, Validated::Invalid(_) => panic!() } }
law!{ validated_invalid_vec [E: Clone, A: Clone] (e: Vec<E>) -> Validated<E, A> ; Validated::invalid_vec(e) ; if e.is_empty() { panic!() } else { inv(e) } }
law!{ validated_combine_errors [E: Clone, A: Clone] (a: Validated<E, A>, b: Validated<E, A>) -> Vec<E> ; es(&a.combine_errors(&b)) ; if ok(&a) && ok(&b) { panic!() } else { cat(es(&a), es(&b)) } }
law!{ validated_combine_errors_owned [E: Clone, A: Clone] (a: Validated<E, A>, b: Validated<E, A>) -> Vec<E> ; es(&a.combine_errors_owned(b)) ; if ok(&a) && ok(&b) { panic!() } else { cat(es(&a), es(&b)) } }
law!{ first_value [T: Clone] (a: Option<T>) -> T ; First(a).value().clone() ; match a { Some(x) => x, None => panic!() } }
law!{ first_into_value [T: Clone] (a: Option<T>) -> T ; First(a).into_value() ; match a { Some(x) => x, None => panic!() } }
law!{ first_unwrap [T: Clone] (a: Option<T>) -> T ; First(a).unwrap() ; match a { Some(x) => x, None => panic!() } }
law!{ first_as_ref [T: Clone] (a: Option<T>) -> T ; AsRef::<T>::as_ref(&First(a)).clone() ; match a { Some(x) => x, None => panic!() } }
law!{ last_value [T: Clone] (a: Option<T>) -> T ; Last(a).value().clone() ; match a { Some(x) => x, None => panic!() } }
law!{ last_into_value [T: Clone] (a: Option<T>) -> T ; Last(a).into_value() ; match a { Some(x) => x, None => panic!() } }
law!{ last_unwrap [T: Clone] (a: Option<T>) -> T ; Last(a).unwrap() ; match a { Some(x) => x, None => panic!() } }
law!{ last_as_ref [T: Clone] (a: Option<T>) -> T ; AsRef::<T>::as_ref(&Last(a)).clone() ; match a { Some(x) => x, None => panic!() } }
law!{ choice_value [T: Clone] (a: Choice<T>) -> T ; Identity::value(&a).clone() ; match a.first() { Some(x) => x.clone(), None => panic!() } }
law!{ choice_into_value [T: Clone] (a: Choice<T>) -> T ; Identity::into_value(a) ; match a.first() { Some(x) => x.clone(), None => panic!() } }
law!{ choice_remove_alternative [T: Clone] (a: Choice<T>, i: usize) -> Vec<T> ; pv(&a.remove_alternative(i)) ; { let mut v = pv(&a); if v.len() <= 1 || i >= v.len() - 1 { panic!() } v.remove(i + 1); v } }
law!{ choice_try_remove_alternative [T: Clone] (a: Choice<T>, i: usize) -> Option<Vec<T>> ; a.try_remove_alternative(i).ok().map(|c| pv(&c)) ; { let mut v = pv(&a); if v.len() <= 1 || i >= v.len() - 1 { None } else { v.remove(i + 1); Some(v) } } }
law!{ choice_swap_with_alternative [T: Clone] (a: Choice<T>, i: usize) -> Vec<T> ; pv(&a.swap_with_alternative(i)) ; { let mut v = pv(&a); if v.len() <= 1 || i >= v.len() - 1 { panic!() } v.swap(0, i + 1); v } }
law!{ choice_try_swap_with_alternative [T: Clone] (a: Choice<T>, i: usize) -> Option<Vec<T>> ; a.try_swap_with_alternative(i).ok().map(|c| pv(&c)) ; { let mut v = pv(&a); if v.len() <= 1 || i >= v.len() - 1 { None } else { v.swap(0, i + 1); Some(v) } } }
law!{ choice_flatten [T: Clone] (a: Choice<Vec<T>>) -> Vec<T> ; pv(&a.flatten()) ; { let mut v = Vec::new(); for x in a.iter() { for y in x.clone() { v.push(y); } } if let Some(x) = a.first() { if x.is_empty() { panic!() } } v } }
law!{ pvec_value [T: Clone] (v: PersistentVector<T>) -> T ; Identity::value(&v).clone() ; match pseq(&v).first() { Some(x) => x.clone(), None => panic!() } }
law!{ pvec_into_value [T: Clone] (v: PersistentVector<T>) -> T ; Identity::into_value(v) ; match pseq(&v).first() { Some(x) => x.clone(), None => panic!() } }
law!{ pvec_index [T: Clone] (v: PersistentVector<T>, i: usize) -> T ; v[i].clone() ; match pseq(&v).get(i) { Some(x) => x.clone(), None => panic!() } }
law!{ combine_all_owned [T: Semigroup + Clone] (a: Vec<T>) -> T ; <T as SemigroupExt>::combine_all_owned(a) ; { let mut it = a.into_iter(); let mut r = match it.next() { Some(x) => x, None => panic!() }; for x in it { r = r.combine(&x); } r } }
law!{ combine_all [T: Semigroup + Clone] (a: T, b: Vec<T>) -> T ; a.combine_all(b) ; { let mut r = a; for x in b { r = r.combine(&x); } r } }
