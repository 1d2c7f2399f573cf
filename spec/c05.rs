use super::refs::*;
use smallvec::SmallVec;
law!{ apply [E: Clone, A: Clone, B: Clone, F: Fn(&A) -> B + Clone] (f: &Validated<E, F>, a: &Validated<E, A>) -> Validated<E, B> ; f.apply(a) ; match (f, a) { (Validated::Valid(f), Validated::Valid(a)) => Validated::Valid(f(a)), _ => inv(cat(es(f), es(a))) } }
law!{ apply_owned [E: Clone, A: Clone, B: Clone, F: Fn(A) -> B + Clone] (f: Validated<E, F>, a: Validated<E, A>) -> Validated<E, B> ; f.apply_owned(a) ; match (&f, &a) { (Validated::Valid(f), Validated::Valid(a)) => Validated::Valid(f(a.clone())), _ => inv(cat(es(&f), es(&a))) } }
law!{ lift2 [E: Clone, A: Clone, B: Clone, C: Clone, F: Fn(&A, &B) -> C] (f: F, a: &Validated<E, A>, b: &Validated<E, B>) -> Validated<E, C> ; Validated::<E, ()>::lift2(f, a, b) ; match (a, b) { (Validated::Valid(x), Validated::Valid(y)) => Validated::Valid(f(x, y)), _ => inv(cat(es(a), es(b))) } }
law!{ lift2_owned [E: Clone, A: Clone, B: Clone, C: Clone, F: Fn(A, B) -> C] (f: F, a: Validated<E, A>, b: Validated<E, B>) -> Validated<E, C> ; Validated::<E, ()>::lift2_owned(f, a, b) ; match (&a, &b) { (Validated::Valid(x), Validated::Valid(y)) => Validated::Valid(f(x.clone(), y.clone())), _ => inv(cat(es(&a), es(&b))) } }
law!{ lift3 [E: Clone, A: Clone, B: Clone, C: Clone, D: Clone, F: Fn(&A, &B, &C) -> D] (f: F, a: &Validated<E, A>, b: &Validated<E, B>, c: &Validated<E, C>) -> Validated<E, D> ; Validated::<E, ()>::lift3(f, a, b, c) ; match (a, b, c) { (Validated::Valid(x), Validated::Valid(y), Validated::Valid(z)) => Validated::Valid(f(x, y, z)), _ => inv(cat(cat(es(a), es(b)), es(c))) } }
law!{ lift3_owned [E: Clone, A: Clone, B: Clone, C: Clone, D: Clone, F: Fn(A, B, C) -> D] (f: F, a: Validated<E, A>, b: Validated<E, B>, c: Validated<E, C>) -> Validated<E, D> ; Validated::<E, ()>::lift3_owned(f, a, b, c) ; match (&a, &b, &c) { (Validated::Valid(x), Validated::Valid(y), Validated::Valid(z)) => Validated::Valid(f(x.clone(), y.clone(), z.clone())), _ => inv(cat(cat(es(&a), es(&b)), es(&c))) } }
law!{ sequence_right [E: Clone, A: Clone, B: Clone] (a: &Validated<E, A>, b: &Validated<E, B>) -> Validated<E, B> ; Validated::<E, ()>::sequence_right(a, b) ; match (a, b) { (Validated::Valid(_), Validated::Valid(y)) => Validated::Valid(y.clone()), _ => inv(cat(es(a), es(b))) } }
law!{ sequence_left [E: Clone, A: Clone, B: Clone] (a: &Validated<E, A>, b: &Validated<E, B>) -> Validated<E, A> ; Validated::<E, ()>::sequence_left(a, b) ; match (a, b) { (Validated::Valid(x), Validated::Valid(_)) => Validated::Valid(x.clone()), _ => inv(cat(es(a), es(b))) } }
law!{ sequence_right_owned [E: Clone, A: Clone, B: Clone] (a: Validated<E, A>, b: Validated<E, B>) -> Validated<E, B> ; Validated::<E, ()>::sequence_right_owned(a, b) ; match (&a, &b) { (Validated::Valid(_), Validated::Valid(y)) => Validated::Valid(y.clone()), _ => inv(cat(es(&a), es(&b))) } }
law!{ sequence_left_owned [E: Clone, A: Clone, B: Clone] (a: Validated<E, A>, b: Validated<E, B>) -> Validated<E, A> ; Validated::<E, ()>::sequence_left_owned(a, b) ; match (&a, &b) { (Validated::Valid(x), Validated::Valid(_)) => Validated::Valid(x.clone()), _ => inv(cat(es(&a), es(&b))) } }
law!{ ap2 [E: Clone, A: Clone, B: Clone, C: Clone, F: Fn(&A, &B) -> C] (f: F, a: &Validated<E, A>, b: &Validated<E, B>) -> Validated<E, C> ; Validated::<E, ()>::ap2(f, a, b) ; match (a, b) { (Validated::Valid(x), Validated::Valid(y)) => Validated::Valid(f(x, y)), _ => inv(cat(es(a), es(b))) } }
law!{ combine_errors [E: Clone, A: Clone] (a: &Validated<E, A>, b: &Validated<E, A>) -> Option<Validated<E, A>> ; { if ok(a) && ok(b) { None } else { Some(a.combine_errors(b)) } } ; { if ok(a) && ok(b) { None } else { Some(inv(cat(es(a), es(b)))) } } }
law!{ combine_errors_owned [E: Clone, A: Clone] (a: Validated<E, A>, b: Validated<E, A>) -> Option<Validated<E, A>> ; { if ok(&a) && ok(&b) { None } else { Some(a.combine_errors_owned(b)) } } ; { if ok(&a) && ok(&b) { None } else { Some(inv(cat(es(&a), es(&b)))) } } }
law!{ sequence [E: Clone, A: Clone, B: Clone, F: Fn(&[A]) -> B] (vs: &[&Validated<E, A>], f: &F) -> Validated<E, B> ; Validated::sequence(vs, f) ; { let mut xs = Vec::new(); let mut bad = false; let mut e = Vec::new(); for v in vs { match v { Validated::Valid(x) => xs.push(x.clone()), Validated::Invalid(_) => { bad = true; e = cat(e, es(v)); } } } if bad { inv(e) } else { Validated::Valid(f(&xs)) } } }
law!{ sequence_owned [E: Clone, A: Clone, B: Clone, F: Fn(Vec<A>) -> B] (vs: Vec<Validated<E, A>>, f: F) -> Validated<E, B> ; Validated::sequence_owned(vs, f) ; { let mut xs = Vec::new(); let mut bad = false; let mut e = Vec::new(); for v in &vs { match v { Validated::Valid(x) => xs.push(x.clone()), Validated::Invalid(_) => { bad = true; e = cat(e, es(v)); } } } if bad { inv(e) } else { Validated::Valid(f(xs)) } } }
law!{ collect [E: Clone, A: Clone] (vs: Vec<Validated<E, A>>) -> Validated<E, Vec<A>> ; Validated::collect::<_, Vec<A>>(vs.into_iter()) ; { let mut xs = Vec::new(); let mut bad = false; let mut e = Vec::new(); for v in &vs { match v { Validated::Valid(x) => xs.push(x.clone()), Validated::Invalid(_) => { bad = true; e = cat(e, es(v)); } } } if bad { inv(e) } else { Validated::Valid(xs) } } }
law!{ collect_any [E: Clone, A: Clone, IT: Iterator<Item = Validated<E, A>> + Clone] (vs: IT) -> Validated<E, Vec<A>> ; Validated::collect::<_, Vec<A>>(vs.into_iter()) ; { let vs: Vec<Validated<E, A>> = vs.collect(); { let mut xs = Vec::new(); let mut bad = false; let mut e = Vec::new(); for v in &vs { match v { Validated::Valid(x) => xs.push(x.clone()), Validated::Invalid(_) => { bad = true; e = cat(e, es(v)); } } } if bad { inv(e) } else { Validated::Valid(xs) } } } }
law!{ collect_owned [E: Clone, A: Clone] (vs: Vec<Validated<E, A>>) -> Validated<E, Vec<A>> ; Validated::collect_owned::<_, Vec<A>>(vs.into_iter()) ; { let mut xs = Vec::new(); let mut bad = false; let mut e = Vec::new(); for v in &vs { match v { Validated::Valid(x) => xs.push(x.clone()), Validated::Invalid(_) => { bad = true; e = cat(e, es(v)); } } } if bad { inv(e) } else { Validated::Valid(xs) } } }
law!{ collect_owned_any [E: Clone, A: Clone, IT: Iterator<Item = Validated<E, A>> + Clone] (vs: IT) -> Validated<E, Vec<A>> ; Validated::collect_owned::<_, Vec<A>>(vs.into_iter()) ; { let vs: Vec<Validated<E, A>> = vs.collect(); { let mut xs = Vec::new(); let mut bad = false; let mut e = Vec::new(); for v in &vs { match v { Validated::Valid(x) => xs.push(x.clone()), Validated::Invalid(_) => { bad = true; e = cat(e, es(v)); } } } if bad { inv(e) } else { Validated::Valid(xs) } } } }
law!{ mplus [E: Clone, A: Clone] (a: &Validated<E, A>, b: &Validated<E, A>) -> Validated<E, A> ; a.mplus(b) ; if ok(a) { a.clone() } else if ok(b) { b.clone() } else { inv(cat(es(a), es(b))) } }
law!{ mplus_owned [E: Clone, A: Clone] (a: Validated<E, A>, b: Validated<E, A>) -> Validated<E, A> ; a.clone().mplus_owned(b.clone()) ; if ok(&a) { a } else if ok(&b) { b } else { inv(cat(es(&a), es(&b))) } }
law!{ combine [E: Clone, A: Clone] (a: &Validated<E, A>, b: &Validated<E, A>) -> Validated<E, A> ; a.combine(b) ; if ok(a) { a.clone() } else if ok(b) { b.clone() } else { inv(cat(es(a), es(b))) } }
law!{ combine_owned [E: Clone, A: Clone] (a: Validated<E, A>, b: Validated<E, A>) -> Validated<E, A> ; a.clone().combine_owned(b.clone()) ; if ok(&a) { a } else if ok(&b) { b } else { inv(cat(es(&a), es(&b))) } }
law!{ mzero [E: Clone, A: Clone] () -> Validated<E, A> ; <Validated<E, ()> as MonadPlus>::mzero() ; inv(Vec::new()) }
law!{ empty [E: Clone, A: Clone] () -> Validated<E, A> ; <Validated<E, A> as Monoid>::empty() ; inv(Vec::new()) }
law!{ valid [E: Clone, A: Clone] (a: A) -> Validated<E, A> ; Validated::valid(a) ; Validated::Valid(a) }
law!{ invalid [E: Clone, A: Clone] (e: E) -> Validated<E, A> ; Validated::invalid(e) ; inv(one(e)) }
law!{ invalid_many [E: Clone, A: Clone] (e: Vec<E>) -> Validated<E, A> ; Validated::invalid_many(e) ; inv(e) }
law!{ invalid_many_any [E: Clone, A: Clone, IT: Iterator<Item = E> + Clone] (e: IT) -> Validated<E, A> ; Validated::invalid_many(e) ; { let e: Vec<E> = e.collect(); inv(e) } }
law!{ invalid_vec [E: Clone, A: Clone] (e: Vec<E>, x: E) -> Validated<E, A> ; Validated::invalid_vec(cat(one(x), e)) ; inv(cat(one(x), e)) }
law!{ is_valid [E: Clone, A: Clone] (v: &Validated<E, A>) -> (bool, bool) ; (v.is_valid(), v.is_invalid()) ; (ok(v), !ok(v)) }
law!{ errors [E: Clone, A: Clone] (v: &Validated<E, A>) -> Vec<E> ; v.errors() ; es(v) }
law!{ error_slice [E: Clone, A: Clone] (v: &Validated<E, A>) -> Vec<E> ; v.error_slice().to_vec() ; es(v) }
law!{ iter_errors [E: Clone, A: Clone] (v: &Validated<E, A>) -> Vec<E> ; { let mut r = Vec::new(); for e in v.iter_errors() { r.push(e.clone()); } r } ; es(v) }
law!{ iter [E: Clone, A: Clone] (v: &Validated<E, A>) -> Vec<A> ; { let mut r = Vec::new(); for e in v.iter() { r.push(e.clone()); } r } ; match v { Validated::Valid(x) => one(x.clone()), _ => Vec::new() } }
law!{ ref_iter [E: Clone, A: Clone] (v: &Validated<E, A>) -> Vec<A> ; { let mut r = Vec::new(); for e in v { r.push(e.clone()); } r } ; match v { Validated::Valid(x) => one(x.clone()), _ => Vec::new() } }
law!{ into_iter [E: Clone, A: Clone] (v: Validated<E, A>) -> Vec<A> ; { let mut r = Vec::new(); for e in v { r.push(e); } r } ; match v { Validated::Valid(x) => one(x.clone()), _ => Vec::new() } }
law!{ error_payload [E: Clone, A: Clone] (v: &Validated<E, A>) -> Option<Vec<E>> ; match v.error_payload() { Some(p) => Some(p.to_vec()), None => None } ; if ok(v) { None } else { Some(es(v)) } }
law!{ into_error_payload [E: Clone, A: Clone] (v: Validated<E, A>) -> Result<SmallVec<[E; 8]>, A> ; v.into_error_payload() ; match v { Validated::Valid(x) => Err(x), Validated::Invalid(e) => Ok(e) } }
law!{ into_value [E: Clone, A: Clone] (v: Validated<E, A>) -> Result<A, SmallVec<[E; 8]>> ; Validated::into_value(v) ; match v { Validated::Valid(x) => Ok(x), Validated::Invalid(e) => Err(e) } }
law!{ fmap_invalid [E: Clone, A: Clone, G: Clone, F: Fn(&E) -> G] (v: &Validated<E, A>, f: F) -> Validated<G, A> ; v.fmap_invalid(f) ; match v { Validated::Valid(x) => Validated::Valid(x.clone()), Validated::Invalid(e) => { let mut r = Vec::new(); for x in e.iter() { r.push(f(x)); } inv(r) } } }
law!{ fmap_invalid_owned [E: Clone, A: Clone, G: Clone, F: Fn(E) -> G] (v: Validated<E, A>, f: F) -> Validated<G, A> ; v.fmap_invalid_owned(f) ; match v { Validated::Valid(x) => Validated::Valid(x), Validated::Invalid(e) => { let mut r = Vec::new(); for x in e { r.push(f(x)); } inv(r) } } }
law!{ unwrap_invalid [E: Clone, A: Clone] (v: &Validated<E, A>) -> Vec<E> ; if ok(v) { Vec::new() } else { v.unwrap_invalid() } ; es(v) }
law!{ unwrap_invalid_owned [E: Clone, A: Clone + Debug] (v: Validated<E, A>) -> Vec<E> ; if ok(&v) { Vec::new() } else { v.unwrap_invalid_owned().into_vec() } ; es(&v) }
law!{ traverse_pairs [E: Clone, A: Clone, B: Clone, F: Fn(&A) -> Validated<E, B>] (xs: Vec<A>, f: F) -> Validated<E, Vec<B>> ; Validated::collect::<_, Vec<B>>(xs.iter().map(|x| f(x))) ; { let mut r = Vec::new(); let mut bad = false; let mut e = Vec::new(); for x in &xs { let v = f(x); match &v { Validated::Valid(y) => r.push(y.clone()), Validated::Invalid(_) => { bad = true; e = cat(e, es(&v)); } } } if bad { inv(e) } else { Validated::Valid(r) } } }
law!{ error_buffer_mut [E: Clone, A: Clone] (m: Validated<E, A>, e: E) -> Validated<E, A> ; { let mut n = m; if let Some(b) = n.error_buffer_mut() { b.push(e); } n } ; match m { Validated::Valid(x) => Validated::Valid(x), Validated::Invalid(es) => inv(self::cat(es.into_vec(), one(e))) } }
law!{ iter_errors_mut [E: Clone, A: Clone, F: Fn(&E) -> E] (m: Validated<E, A>, f: F) -> Validated<E, A> ; { let mut n = m; for x in n.iter_errors_mut() { *x = f(x); } n } ; match m { Validated::Valid(x) => Validated::Valid(x), Validated::Invalid(es) => { let mut v = Vec::new(); for e in es { v.push(f(&e)); } inv(v) } } }
law!{ iter_errors_each [E: Clone, A: Clone] (m: &Validated<E, A>) -> Vec<E> ; { let mut v = Vec::new(); for x in m.iter_errors() { v.push(x.clone()); } v } ; es(m) }
law!{ fmap_valid_async [E: Clone, A: Clone, B: Clone + Send + 'static, T: std::future::Future<Output = B> + Send, F: Fn(A) -> T + Send + 'static] (m: Validated<E, A>, f: F) -> impl std::future::Future<Output = Validated<E, B>> ; async move { m.fmap_valid_async(f).await } ; async move { match m { Validated::Valid(x) => Validated::Valid(f(x).await), Validated::Invalid(e) => Validated::Invalid(e) } } }
law!{ and_then_async [E: Clone, A: Clone, B: Clone + Send + 'static, T: std::future::Future<Output = Validated<E, B>> + Send, F: Fn(A) -> T + Send + 'static] (m: Validated<E, A>, f: F) -> impl std::future::Future<Output = Validated<E, B>> ; async move { m.and_then_async(f).await } ; async move { match m { Validated::Valid(x) => f(x).await, Validated::Invalid(e) => Validated::Invalid(e) } } }
vlaw!{ fmap_invalid_async [E: Clone, A: Clone, G: Clone + Send + 'static, T: std::future::Future<Output = G> + Send, F: Fn(E) -> T + Send + 'static + Clone] (m: Validated<E, A>, f: F) -> impl std::future::Future<Output = Validated<G, A>> ; async move { m.fmap_invalid_async(f).await } ; async move { match m { Validated::Valid(x) => Validated::Valid(x), Validated::Invalid(es) => { let mut v = Vec::new(); for e in es { v.push(f(e).await); } inv(v) } } } }
