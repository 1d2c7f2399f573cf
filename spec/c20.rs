use super::refs::*;
law!{ either_bimap [A: Clone, B: Clone, C: Clone, D: Clone, F: Fn(&B) -> C, G: Fn(&A) -> D] (m: &Either<A, B>, f: F, g: G) -> Either<D, C> ; Bifunctor::bimap(m, f, g) ; match m { Either::Left(a) => Either::Left(g(a)), Either::Right(b) => Either::Right(f(b)) } }
law!{ either_first [A: Clone, B: Clone, C: Clone, F: Fn(&B) -> C] (m: &Either<A, B>, f: F) -> Either<A, C> ; Bifunctor::first(m, f) ; match m { Either::Left(a) => Either::Left(a.clone()), Either::Right(b) => Either::Right(f(b)) } }
law!{ either_second [A: Clone, B: Clone, D: Clone, G: Fn(&A) -> D] (m: &Either<A, B>, g: G) -> Either<D, B> ; Bifunctor::second(m, g) ; match m { Either::Left(a) => Either::Left(g(a)), Either::Right(b) => Either::Right(b.clone()) } }
law!{ either_map_second [A: Clone, B: Clone, D: Clone, G: Fn(&A) -> D] (m: &Either<A, B>, g: G) -> Either<D, B> ; BinaryHKT::map_second(m, g) ; match m { Either::Left(a) => Either::Left(g(a)), Either::Right(b) => Either::Right(b.clone()) } }
law!{ either_map_second_owned [A, B, D: Clone, G: Fn(A) -> D] (m: Either<A, B>, g: G) -> Either<D, B> ; BinaryHKT::map_second_owned(m, g) ; match m { Either::Left(a) => Either::Left(g(a)), Either::Right(b) => Either::Right(b) } }
law!{ either_fmap_left [A, B, D, G: Fn(A) -> D] (m: Either<A, B>, g: G) -> Either<D, B> ; m.fmap_left(g) ; match m { Either::Left(a) => Either::Left(g(a)), Either::Right(b) => Either::Right(b) } }
law!{ either_fmap_right [A, B, D, G: FnMut(B) -> D] (m: Either<A, B>, g: G) -> Either<A, D> ; m.fmap_right(g) ; { let mut g = g; match m { Either::Left(a) => Either::Left(a), Either::Right(b) => Either::Right(g(b)) } } }
law!{ either_identity [A: Clone, B: Clone] (m: Either<A, B>) -> Either<A, B> ; m.bimap(|b| b.clone(), |a| a.clone()) ; m }
vlaw!{ either_split [A: Clone, B: Clone, C: Clone, D: Clone, F: Fn(&B) -> C, G: Fn(&A) -> D] (m: &Either<A, B>, f: F, g: G) -> Either<D, C> ; Bifunctor::bimap(m, f, g) ; Bifunctor::second(&Bifunctor::first(m, f), g) }
vlaw!{ either_split2 [A: Clone, B: Clone, C: Clone, D: Clone, F: Fn(&B) -> C, G: Fn(&A) -> D] (m: &Either<A, B>, f: F, g: G) -> Either<D, C> ; Bifunctor::bimap(m, f, g) ; Bifunctor::first(&Bifunctor::second(m, g), f) }
vlaw!{ either_compose [A: Clone, B: Clone, C: Clone, D: Clone, C2: Clone, D2: Clone, F: Fn(&B) -> C, G: Fn(&A) -> D, F2: Fn(&C) -> C2, G2: Fn(&D) -> D2] (m: &Either<A, B>, f: F, g: G, f2: F2, g2: G2) -> Either<D2, C2> ; m.bimap(f, g).bimap(f2, g2) ; m.bimap(|b| f2(&f(b)), |a| g2(&g(a))) }
law!{ validated_bimap [E: Clone, A: Clone, C: Clone, D: Clone, F: Fn(&A) -> C, G: Fn(&E) -> D] (m: &Validated<E, A>, f: F, g: G) -> Validated<D, C> ; Bifunctor::bimap(m, f, g) ; match m { Validated::Valid(x) => Validated::Valid(f(x)), Validated::Invalid(e) => { let mut r = Vec::new(); for x in e.iter() { r.push(g(x)); } inv(r) } } }
law!{ validated_first [E: Clone, A: Clone, C: Clone, F: Fn(&A) -> C] (m: &Validated<E, A>, f: F) -> Validated<E, C> ; Bifunctor::first(m, f) ; match m { Validated::Valid(x) => Validated::Valid(f(x)), Validated::Invalid(_) => inv(es(m)) } }
law!{ validated_second [E: Clone, A: Clone, D: Clone, G: Fn(&E) -> D] (m: &Validated<E, A>, g: G) -> Validated<D, A> ; Bifunctor::second(m, g) ; match m { Validated::Valid(x) => Validated::Valid(x.clone()), Validated::Invalid(e) => { let mut r = Vec::new(); for x in e.iter() { r.push(g(x)); } inv(r) } } }
law!{ validated_map_second [E: Clone, A: Clone, D: Clone, G: Fn(&E) -> D] (m: &Validated<E, A>, g: G) -> Validated<D, A> ; BinaryHKT::map_second(m, g) ; match m { Validated::Valid(x) => Validated::Valid(x.clone()), Validated::Invalid(e) => { let mut r = Vec::new(); for x in e.iter() { r.push(g(x)); } inv(r) } } }
law!{ validated_map_second_owned [E, A, D: Clone, G: Fn(E) -> D] (m: Validated<E, A>, g: G) -> Validated<D, A> ; BinaryHKT::map_second_owned(m, g) ; match m { Validated::Valid(x) => Validated::Valid(x), Validated::Invalid(e) => { let mut r = Vec::new(); for x in e { r.push(g(x)); } inv(r) } } }
law!{ validated_fmap_invalid [E: Clone, A: Clone, D: Clone, G: Fn(&E) -> D] (m: &Validated<E, A>, g: G) -> Validated<D, A> ; m.fmap_invalid(g) ; match m { Validated::Valid(x) => Validated::Valid(x.clone()), Validated::Invalid(e) => { let mut r = Vec::new(); for x in e.iter() { r.push(g(x)); } inv(r) } } }
law!{ validated_fmap_invalid_owned [E: Clone, A: Clone, D: Clone, G: Fn(E) -> D] (m: Validated<E, A>, g: G) -> Validated<D, A> ; m.fmap_invalid_owned(g) ; match m { Validated::Valid(x) => Validated::Valid(x), Validated::Invalid(e) => { let mut r = Vec::new(); for x in e { r.push(g(x)); } inv(r) } } }
law!{ validated_identity [E: Clone, A: Clone] (m: Validated<E, A>) -> Validated<E, A> ; m.bimap(|b| b.clone(), |a| a.clone()) ; m }
vlaw!{ validated_split [E: Clone, A: Clone, C: Clone, D: Clone, F: Fn(&A) -> C, G: Fn(&E) -> D] (m: &Validated<E, A>, f: F, g: G) -> Validated<D, C> ; Bifunctor::bimap(m, f, g) ; Bifunctor::second(&Bifunctor::first(m, f), g) }
vlaw!{ validated_compose [E: Clone, A: Clone, C: Clone, D: Clone, C2: Clone, D2: Clone, F: Fn(&A) -> C, G: Fn(&E) -> D, F2: Fn(&C) -> C2, G2: Fn(&D) -> D2] (m: &Validated<E, A>, f: F, g: G, f2: F2, g2: G2) -> Validated<D2, C2> ; m.bimap(f, g).bimap(f2, g2) ; m.bimap(|b| f2(&f(b)), |a| g2(&g(a))) }
