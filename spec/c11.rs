use super::refs::*;
law!{ new_run [L: W, A] (l: L, a: A) -> (L, A) ; Writer::new(l, a).run() ; (l, a) }
law!{ tell [L: W] (l: L) -> (L, ()) ; Writer::<L, ()>::tell(l).run() ; (l, ()) }
law!{ pure_value [L: W, A] (a: A) -> (L, A) ; Writer::<L, A>::pure_value(a).run() ; (L::empty(), a) }
law!{ pure [L: W, A: Clone] (a: &A) -> (L, A) ; <Writer<L, A> as Pure>::pure(a).run() ; (L::empty(), a.clone()) }
law!{ pure_owned [L: W, A: Clone] (a: A) -> (L, A) ; <Writer<L, A> as Pure>::pure_owned(a).run() ; (L::empty(), a) }
law!{ unwrap [L: W, A: Clone] (l: L, a: A) -> A ; Writer::new(l, a).unwrap() ; a }
law!{ log [L: W, A] (l: L, a: A) -> L ; Writer::new(l, a).log() ; l }
law!{ value [L: W, A: Clone] (l: L, a: A) -> A ; Identity::value(&Writer::new(l, a)).clone() ; a }
law!{ into_value [L: W, A] (l: L, a: A) -> A ; Identity::into_value(Writer::new(l, a)) ; a }
law!{ fmap [L: W, A: Clone, B: Clone, F: Fn(&A) -> B] (l: L, a: A, f: F) -> (L, B) ; Functor::fmap(&Writer::new(l.clone(), a.clone()), &f).run() ; (l, f(&a)) }
law!{ fmap_owned [L: W, A: Clone, B: Clone, F: Fn(A) -> B] (l: L, a: A, f: F) -> (L, B) ; Functor::fmap_owned(Writer::new(l, a), &f).run() ; (l, f(a)) }
law!{ replace [L: W, A: Clone, B: Clone] (l: L, a: A, b: B) -> (L, B) ; Functor::replace(&Writer::new(l.clone(), a), &b).run() ; (l, b.clone()) }
law!{ bind [L: W, A: Clone, B: Clone, F: Fn(&A) -> Writer<L, B>] (l: L, a: A, f: F) -> (L, B) ; Monad::bind(&Writer::new(l.clone(), a.clone()), &f).run() ; { let (m, b) = f(&a).run(); (l.combine(&m), b) } }
law!{ bind_owned [L: W, A: Clone, B: Clone, F: Fn(A) -> Writer<L, B>] (l: L, a: A, f: F) -> (L, B) ; Monad::bind_owned(Writer::new(l, a), &f).run() ; { let (m, b) = f(a).run(); (l.combine_owned(m), b) } }
law!{ bind_bind [L: W, A: Clone, B: Clone, C: Clone, F: Fn(&A) -> (L, B), G: Fn(&B) -> (L, C)] (l: L, a: A, f: F, g: G) -> (L, C) ; Monad::bind(&Monad::bind(&Writer::new(l.clone(), a.clone()), |x: &A| { let (m, b) = f(x); Writer::new(m, b) }), |y: &B| { let (n, c) = g(y); Writer::new(n, c) }).run() ; { let (m, b) = f(&a); let (n, c) = g(&b); (l.combine(&m).combine(&n), c) } }
law!{ bind_bind_owned [L: W, A: Clone, B: Clone, C: Clone, F: Fn(A) -> (L, B), G: Fn(B) -> (L, C)] (l: L, a: A, f: F, g: G) -> (L, C) ; Monad::bind_owned(Monad::bind_owned(Writer::new(l.clone(), a.clone()), |x: A| { let (m, b) = f(x); Writer::new(m, b) }), |y: B| { let (n, c) = g(y); Writer::new(n, c) }).run() ; { let (m, b) = f(a); let (n, c) = g(b); (l.combine(&m).combine(&n), c) } }
law!{ tell_then [L: W, A: Clone] (l: L, m: L, a: A) -> (L, A) ; Monad::bind(&Writer::<L, ()>::tell(l.clone()), |_: &()| Writer::new(m.clone(), a.clone())).run() ; (l.combine(&m), a) }
law!{ left_identity [L: W, A: Clone, B: Clone, F: Fn(&A) -> Writer<L, B>] (a: A, f: F) -> (L, B) ; Monad::bind(&Writer::<L, A>::pure_value(a.clone()), &f).run() ; f(&a).run() }
law!{ right_identity [L: W, A: Clone] (l: L, a: A) -> (L, A) ; Monad::bind(&Writer::new(l.clone(), a.clone()), |x: &A| Writer::pure_value(x.clone())).run() ; (l, a) }
law!{ right_identity_owned [L: W, A: Clone] (l: L, a: A) -> (L, A) ; Monad::bind_owned(Writer::new(l.clone(), a.clone()), |x: A| Writer::pure_value(x)).run() ; (l, a) }
law!{ associativity [L: W, A: Clone, B: Clone, C: Clone, F: Fn(&A) -> (L, B), G: Fn(&B) -> (L, C)] (l: L, a: A, f: F, g: G) -> (L, C) ; Monad::bind(&Monad::bind(&Writer::new(l.clone(), a.clone()), |x: &A| { let (m, b) = f(x); Writer::new(m, b) }), |y: &B| { let (n, c) = g(y); Writer::new(n, c) }).run() ; Monad::bind(&Writer::new(l.clone(), a.clone()), |x: &A| { let (m, b) = f(x); Monad::bind(&Writer::new(m, b), |y: &B| { let (n, c) = g(y); Writer::new(n, c) }) }).run() }
law!{ join [L: W, A: Clone] (l: L, m: L, a: A) -> (L, A) ; Monad::join::<A>(&Writer::new(l.clone(), Writer::new(m.clone(), a.clone()))).run() ; (l.combine(&m), a) }
law!{ join_owned [L: W, A: Clone] (l: L, m: L, a: A) -> (L, A) ; Monad::join_owned::<A>(Writer::new(l.clone(), Writer::new(m.clone(), a.clone()))).run() ; (l.combine(&m), a) }
law!{ apply [L: W, A: Clone, B: Clone, F: Fn(&A) -> B + Clone] (l: L, m: L, f: F, a: A) -> (L, B) ; Applicative::apply(&Writer::new(l.clone(), f.clone()), &Writer::new(m.clone(), a.clone())).run() ; (l.combine(&m), f(&a)) }
law!{ apply_owned [L: W, A: Clone, B: Clone, F: Fn(A) -> B + Clone] (l: L, m: L, f: F, a: A) -> (L, B) ; Applicative::apply_owned(Writer::new(l.clone(), f.clone()), Writer::new(m.clone(), a.clone())).run() ; (l.combine(&m), f(a)) }
law!{ lift2 [L: W, A: Clone, B: Clone, C: Clone, F: Fn(&A, &B) -> C] (l: L, m: L, f: F, a: A, b: B) -> (L, C) ; <Writer<L, A> as Applicative>::lift2(&f, &Writer::new(l.clone(), a.clone()), &Writer::new(m.clone(), b.clone())).run() ; (l.combine(&m), f(&a, &b)) }
law!{ lift2_owned [L: W, A: Clone, B: Clone, C: Clone, F: Fn(A, B) -> C] (l: L, m: L, f: F, a: A, b: B) -> (L, C) ; <Writer<L, A> as Applicative>::lift2_owned(&f, Writer::new(l.clone(), a.clone()), Writer::new(m.clone(), b.clone())).run() ; (l.combine(&m), f(a, b)) }
law!{ lift3 [L: W, A: Clone, B: Clone, C: Clone, D: Clone, F: Fn(&A, &B, &C) -> D] (l: L, m: L, n: L, f: F, a: A, b: B, c: C) -> (L, D) ; <Writer<L, A> as Applicative>::lift3(&f, &Writer::new(l.clone(), a.clone()), &Writer::new(m.clone(), b.clone()), &Writer::new(n.clone(), c.clone())).run() ; (l.combine(&m).combine(&n), f(&a, &b, &c)) }
law!{ lift3_owned [L: W, A: Clone, B: Clone, C: Clone, D: Clone, F: Fn(A, B, C) -> D] (l: L, m: L, n: L, f: F, a: A, b: B, c: C) -> (L, D) ; <Writer<L, A> as Applicative>::lift3_owned(&f, Writer::new(l.clone(), a.clone()), Writer::new(m.clone(), b.clone()), Writer::new(n.clone(), c.clone())).run() ; (l.combine(&m).combine(&n), f(a, b, c)) }
law!{ combine [L: W, A: W] (l: L, m: L, a: A, b: A) -> (L, A) ; Semigroup::combine(&Writer::new(l.clone(), a.clone()), &Writer::new(m.clone(), b.clone())).run() ; (l.combine(&m), a.combine(&b)) }
law!{ combine_owned [L: W, A: W] (l: L, m: L, a: A, b: A) -> (L, A) ; Semigroup::combine_owned(Writer::new(l.clone(), a.clone()), Writer::new(m.clone(), b.clone())).run() ; (l.combine(&m), a.combine(&b)) }
law!{ empty [L: W, A: W] () -> (L, A) ; <Writer<L, A> as Monoid>::empty().run() ; (L::empty(), A::empty()) }
law!{ into_iter [L: W, A] (l: L, a: A) -> Vec<A> ; { let mut r = Vec::new(); for x in Writer::new(l, a) { r.push(x); } r } ; one(a) }
law!{ iter_ref [L: W, A: Clone] (l: L, a: A) -> Vec<A> ; { let w = Writer::new(l, a.clone()); let mut r = Vec::new(); for x in &w { r.push(x.clone()); } r } ; one(a) }
law!{ string_logs [A: Clone, B: Clone, F: Fn(&A) -> (String, B)] (l: String, a: A, f: F) -> (String, B) ; Monad::bind(&Writer::new(l.clone(), a.clone()), |x: &A| { let (m, b) = f(x); Writer::new(m, b) }).run() ; { let (m, b) = f(&a); (l.combine(&m), b) } }
law!{ vec_logs [X: Clone, A: Clone, B: Clone, F: Fn(&A) -> (Vec<X>, B)] (l: Vec<X>, a: A, f: F) -> (Vec<X>, B) ; Monad::bind(&Writer::new(l.clone(), a.clone()), |x: &A| { let (m, b) = f(x); Writer::new(m, b) }).run() ; { let (m, b) = f(&a); (self::cat(l, m), b) } }
