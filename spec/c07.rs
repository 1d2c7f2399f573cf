use super::refs::*;
law!{ maybe_alt [A: Clone] (a: &Maybe<A>, b: &Maybe<A>) -> Maybe<A> ; a.alt(b) ; match a { Maybe::Just(x) => Maybe::Just(x.clone()), Maybe::Nothing => b.clone() } }
law!{ maybe_empty [A: Clone] () -> Maybe<A> ; <Maybe<()> as Alternative>::empty_alt() ; Maybe::Nothing }
law!{ maybe_guard [A: Clone] (c: bool) -> Maybe<()> ; <Maybe<A> as Alternative>::guard(c) ; if c { Maybe::Just(()) } else { Maybe::Nothing } }
law!{ maybe_many [A: Clone] (m: &Maybe<A>) -> Maybe<Vec<A>> ; m.many() ; match m { Maybe::Just(x) => { let mut v = Vec::new(); v.push(x.clone()); Maybe::Just(v) }, Maybe::Nothing => Maybe::Nothing } }
law!{ maybe_mplus [A: Clone] (a: &Maybe<A>, b: &Maybe<A>) -> Maybe<A> ; a.mplus(b) ; match a { Maybe::Just(x) => Maybe::Just(x.clone()), Maybe::Nothing => b.clone() } }
law!{ maybe_mplus_owned [A: Clone] (a: Maybe<A>, b: Maybe<A>) -> Maybe<A> ; a.mplus_owned(b) ; match a { Maybe::Just(x) => Maybe::Just(x), Maybe::Nothing => b } }
law!{ maybe_mzero [A: Clone] () -> Maybe<A> ; <Maybe<u8> as MonadPlus>::mzero() ; Maybe::Nothing }
law!{ maybe_filter [A, P: Fn(&A) -> bool] (m: Maybe<A>, p: P) -> Maybe<A> ; m.filter(p) ; match m { Maybe::Just(x) => if p(&x) { Maybe::Just(x) } else { Maybe::Nothing }, Maybe::Nothing => Maybe::Nothing } }
law!{ maybe_when [A] (c: bool, x: A) -> Maybe<A> ; Maybe::when(c, x) ; if c { Maybe::Just(x) } else { Maybe::Nothing } }
law!{ either_alt [L: Clone + Default, A: Clone] (a: &Either<L, A>, b: &Either<L, A>) -> Either<L, A> ; a.alt(b) ; match a { Either::Right(x) => Either::Right(x.clone()), Either::Left(_) => b.clone() } }
law!{ either_empty [L: Clone + Default, A: Clone] () -> Either<L, A> ; <Either<L, ()> as Alternative>::empty_alt() ; Either::Left(L::default()) }
law!{ either_guard [L: Clone + Default, A: Clone] (c: bool) -> Either<L, ()> ; <Either<L, A> as Alternative>::guard(c) ; if c { Either::Right(()) } else { Either::Left(L::default()) } }
law!{ either_many [L: Clone + Default, A: Clone] (m: &Either<L, A>) -> Either<L, Vec<A>> ; m.many() ; match m { Either::Right(x) => { let mut v = Vec::new(); v.push(x.clone()); Either::Right(v) }, Either::Left(_) => Either::Left(L::default()) } }
law!{ either_mplus [L: Clone + Default, A: Clone] (a: &Either<L, A>, b: &Either<L, A>) -> Option<A> ; match a.mplus(b) { Either::Right(x) => Some(x), Either::Left(_) => None } ; match (a, b) { (Either::Right(x), _) => Some(x.clone()), (_, Either::Right(y)) => Some(y.clone()), _ => None } }
law!{ either_mzero [L: Clone + Default, A: Clone] () -> Either<L, A> ; <Either<L, ()> as MonadPlus>::mzero() ; Either::Left(L::default()) }
law!{ option_alt [A: Clone] (a: &Option<A>, b: &Option<A>) -> Option<A> ; a.alt(b) ; match a { Some(x) => Some(x.clone()), None => b.clone() } }
law!{ option_empty [A: Clone] () -> Option<A> ; <Option<()> as Alternative>::empty_alt() ; None }
law!{ option_guard [A: Clone] (c: bool) -> Option<()> ; <Option<A> as Alternative>::guard(c) ; if c { Some(()) } else { None } }
law!{ option_many [A: Clone] (m: &Option<A>) -> Option<Vec<A>> ; m.many() ; match m { Some(x) => Some(one(x.clone())), None => None } }
law!{ option_mzero [A: Clone] () -> Option<A> ; <Option<u8> as MonadPlus>::mzero() ; None }
law!{ option_mplus [A: Clone] (a: &Option<A>, b: &Option<A>) -> Option<A> ; a.mplus(b) ; match a { Some(x) => Some(x.clone()), None => b.clone() } }
law!{ option_mplus_owned [A: Clone] (a: Option<A>, b: Option<A>) -> Option<A> ; a.mplus_owned(b) ; match a { Some(x) => Some(x), None => b } }
law!{ option_filter [A: Clone, P: Fn(&A) -> bool] (m: Option<A>, p: P) -> Option<A> ; FunctorExt::filter(&m, p) ; match m { Some(x) => if p(&x) { Some(x) } else { None }, None => None } }
law!{ vec_filter [A: Clone, P: Fn(&A) -> bool] (m: Vec<A>, p: P) -> Vec<A> ; FunctorExt::filter(&m, p) ; { let mut r = Vec::new(); for x in m { if p(&x) { r.push(x); } } r } }
law!{ result_mzero [E: Clone + Default + Debug, A: Clone] () -> Result<A, E> ; <Result<u8, E> as MonadPlus>::mzero() ; Err(E::default()) }
law!{ result_mplus [E: Clone + Default + Debug, A: Clone] (a: &Result<A, E>, b: &Result<A, E>) -> Result<A, E> ; a.mplus(b) ; match a { Ok(x) => Ok(x.clone()), Err(_) => b.clone() } }
law!{ result_mplus_owned [E: Clone + Default + Debug, A: Clone] (a: Result<A, E>, b: Result<A, E>) -> Result<A, E> ; a.mplus_owned(b) ; match a { Ok(x) => Ok(x), Err(_) => b } }
law!{ vec_alt [A: Clone] (a: &Vec<A>, b: &Vec<A>) -> Vec<A> ; a.alt(b) ; if a.is_empty() { b.clone() } else { a.clone() } }
law!{ vec_empty [A: Clone] () -> Vec<A> ; <Vec<()> as Alternative>::empty_alt() ; Vec::new() }
law!{ vec_guard [A: Clone] (c: bool) -> Vec<()> ; <Vec<A> as Alternative>::guard(c) ; if c { one(()) } else { Vec::new() } }
law!{ vec_many [A: Clone] (m: &Vec<A>) -> Vec<Vec<A>> ; m.many() ; if m.is_empty() { Vec::new() } else { one(m.clone()) } }
law!{ validated_alt [E: Clone + Default, A: Clone] (a: &Validated<E, A>, b: &Validated<E, A>) -> Validated<E, A> ; a.alt(b) ; match a { Validated::Valid(x) => Validated::Valid(x.clone()), Validated::Invalid(_) => b.clone() } }
law!{ validated_empty [E: Clone + Default, A: Clone] () -> Validated<E, A> ; <Validated<E, u8> as Alternative>::empty_alt() ; inv(one(E::default())) }
law!{ validated_guard [E: Clone + Default, A: Clone] (c: bool) -> Validated<E, ()> ; <Validated<E, A> as Alternative>::guard(c) ; if c { Validated::Valid(()) } else { inv(one(E::default())) } }
law!{ validated_many [E: Clone + Default, A: Clone] (m: &Validated<E, A>) -> Validated<E, Vec<A>> ; m.many() ; match m { Validated::Valid(x) => Validated::Valid(one(x.clone())), Validated::Invalid(_) => inv(one(E::default())) } }
law!{ validated_mzero [E: Clone, A: Clone] () -> Validated<E, A> ; <Validated<E, u8> as MonadPlus>::mzero() ; inv(Vec::new()) }
law!{ validated_mplus [E: Clone, A: Clone] (a: &Validated<E, A>, b: &Validated<E, A>) -> Validated<E, A> ; a.mplus(b) ; match (a, b) { (Validated::Valid(x), _) => Validated::Valid(x.clone()), (_, Validated::Valid(y)) => Validated::Valid(y.clone()), _ => inv(self::cat(es(a), es(b))) } }
law!{ validated_mplus_owned [E: Clone, A: Clone] (a: Validated<E, A>, b: Validated<E, A>) -> Validated<E, A> ; a.clone().mplus_owned(b.clone()) ; match (&a, &b) { (Validated::Valid(x), _) => Validated::Valid(x.clone()), (_, Validated::Valid(y)) => Validated::Valid(y.clone()), _ => inv(self::cat(es(&a), es(&b))) } }
law!{ choice_alt [A: Clone] (a: &Choice<A>, b: &Choice<A>) -> Choice<A> ; a.alt(b) ; Choice::of_many(self::cat(a.iter().cloned().collect(), b.iter().cloned().collect::<Vec<_>>())) }
law!{ choice_empty [A: Clone] () -> Choice<A> ; <Choice<u8> as Alternative>::empty_alt() ; Choice::of_many(Vec::new()) }
law!{ choice_guard [A: Clone] (c: bool) -> Choice<()> ; <Choice<A> as Alternative>::guard(c) ; if c { Choice::of_many(one(())) } else { Choice::of_many(Vec::new()) } }
law!{ choice_mzero [A: Clone] () -> Choice<A> ; <Choice<u8> as MonadPlus>::mzero() ; Choice::of_many(Vec::new()) }
law!{ choice_mplus [A: Clone] (a: &Choice<A>, b: &Choice<A>) -> Choice<A> ; a.mplus(b) ; Choice::of_many(self::cat(a.iter().cloned().collect(), b.iter().cloned().collect::<Vec<_>>())) }
law!{ choice_mplus_owned [A: Clone] (a: Choice<A>, b: Choice<A>) -> Choice<A> ; a.clone().mplus_owned(b.clone()) ; Choice::of_many(self::cat(a.iter().cloned().collect(), b.iter().cloned().collect::<Vec<_>>())) }
law!{ choice_filter [A: Clone, P: Fn(&A) -> bool] (m: Choice<A>, p: P) -> Choice<A> ; m.filter_values(|x| p(x)) ; { let mut r = Vec::new(); for x in m.iter() { if p(x) { r.push(x.clone()); } } Choice::of_many(r) } }
law!{ option_alt_assoc [A: Clone] (a: &Option<A>, b: &Option<A>, c: &Option<A>) -> Option<A> ; a.alt(&b.alt(c)) ; a.alt(b).alt(c) }
law!{ maybe_alt_assoc [A: Clone] (a: &Maybe<A>, b: &Maybe<A>, c: &Maybe<A>) -> Maybe<A> ; a.alt(&b.alt(c)) ; a.alt(b).alt(c) }
law!{ either_alt_assoc [L: Clone + Default, A: Clone] (a: &Either<L, A>, b: &Either<L, A>, c: &Either<L, A>) -> Either<L, A> ; a.alt(&b.alt(c)) ; a.alt(b).alt(c) }
law!{ vec_alt_assoc [A: Clone] (a: &Vec<A>, b: &Vec<A>, c: &Vec<A>) -> Vec<A> ; a.alt(&b.alt(c)) ; a.alt(b).alt(c) }
law!{ choice_alt_assoc [A: Clone] (a: &Choice<A>, b: &Choice<A>, c: &Choice<A>) -> Choice<A> ; a.alt(&b.alt(c)) ; a.alt(b).alt(c) }
law!{ validated_mplus_assoc [E: Clone, A: Clone] (a: &Validated<E, A>, b: &Validated<E, A>, c: &Validated<E, A>) -> Validated<E, A> ; a.mplus(&b.mplus(c)) ; a.mplus(b).mplus(c) }
