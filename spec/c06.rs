use super::refs::*;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::hash::Hash;
macro_rules! sg { ($n:ident [$($g:tt)*] $t:ty, $x:ident $y:ident => $e:expr) => { pub mod $n {
    use super::*;
    law!{ combine [$($g)*] ($x: &$t, $y: &$t) -> $t ; $x.combine($y) ; $e }
    law!{ combine_owned [$($g)*] (p: $t, q: $t) -> $t ; p.clone().combine_owned(q.clone()) ; { let $x = &p; let $y = &q; $e } }
    vlaw!{ associative [$($g)*] (x: &$t, y: &$t, z: &$t) -> $t ; x.combine(y).combine(z) ; x.combine(&y.combine(z)) }
    vlaw!{ associative_owned [$($g)*] (x: $t, y: $t, z: $t) -> $t ; x.clone().combine_owned(y.clone()).combine_owned(z.clone()) ; x.combine_owned(y.combine_owned(z)) }
} } }
macro_rules! mo { ($n:ident [$($g:tt)*] $t:ty) => { pub mod $n {
    use super::*;
    vlaw!{ empty_left [$($g)*] (x: &$t) -> $t ; <$t as Monoid>::empty().combine(x) ; x.clone() }
    vlaw!{ empty_right [$($g)*] (x: &$t) -> $t ; x.combine(&<$t as Monoid>::empty()) ; x.clone() }
    vlaw!{ empty_left_owned [$($g)*] (x: $t) -> $t ; <$t as Monoid>::empty().combine_owned(x.clone()) ; x }
    vlaw!{ empty_right_owned [$($g)*] (x: $t) -> $t ; x.clone().combine_owned(<$t as Monoid>::empty()) ; x }
} } }
sg!{ string [] String, x y => { let mut s = x.clone(); s.push_str(y); s } }
sg!{ vec [T: Clone] Vec<T>, x y => cat(x.clone(), y.clone()) }
sg!{ tuple2 [A: Semigroup + Clone, B: Semigroup + Clone] (A, B), x y => (x.0.combine(&y.0), x.1.combine(&y.1)) }
sg!{ tuple3 [A: Semigroup + Clone, B: Semigroup + Clone, C: Semigroup + Clone] (A, B, C), x y => (x.0.combine(&y.0), x.1.combine(&y.1), x.2.combine(&y.2)) }
sg!{ tuple4 [A: Semigroup + Clone, B: Semigroup + Clone, C: Semigroup + Clone, D: Semigroup + Clone] (A, B, C, D), x y => (x.0.combine(&y.0), x.1.combine(&y.1), x.2.combine(&y.2), x.3.combine(&y.3)) }
sg!{ option [T: Semigroup + Clone] Option<T>, x y => match x { None => y.clone(), Some(a) => match y { None => x.clone(), Some(b) => Some(a.combine(b)) } } }
sg!{ first [T: Clone] First<T>, x y => First(match &x.0 { Some(a) => Some(a.clone()), None => y.0.clone() }) }
sg!{ last [T: Clone] Last<T>, x y => Last(match &y.0 { Some(a) => Some(a.clone()), None => x.0.clone() }) }
sg!{ max [T: Clone + Ord] Max<T>, x y => if x.0.cmp(&y.0) == std::cmp::Ordering::Less { y.clone() } else { x.clone() } }
sg!{ min [T: Clone + Ord] Min<T>, x y => if x.0.cmp(&y.0) == std::cmp::Ordering::Greater { y.clone() } else { x.clone() } }
sg!{ choice [T: Clone] Choice<T>, x y => { let mut v = Vec::new(); for a in x.iter() { v.push(a.clone()); } for a in y.iter() { v.push(a.clone()); } Choice::of_many(v) } }
sg!{ validated [E: Clone, A: Clone] Validated<E, A>, x y => if ok(x) { x.clone() } else if ok(y) { y.clone() } else { inv(cat(es(x), es(y))) } }
law!{ sum_combine [T: Clone + Add<Output = T>] (x: &Sum<T>, y: &Sum<T>) -> Sum<T> ; x.combine(y) ; Sum(x.0.clone() + y.0.clone()) }
law!{ sum_combine_owned [T: Clone + Add<Output = T>] (x: Sum<T>, y: Sum<T>) -> Sum<T> ; x.combine_owned(y) ; Sum(x.0 + y.0) }
law!{ sum_empty [T: Clone + Add<Output = T> + Default] () -> Sum<T> ; <Sum<T> as Monoid>::empty() ; Sum(T::default()) }
law!{ product_combine [T: Clone + Mul<Output = T>] (x: &Product<T>, y: &Product<T>) -> Product<T> ; x.combine(y) ; Product(x.0.clone() * y.0.clone()) }
law!{ product_combine_owned [T: Clone + Mul<Output = T>] (x: Product<T>, y: Product<T>) -> Product<T> ; x.combine_owned(y) ; Product(x.0 * y.0) }
law!{ product_empty [T: Clone + Mul<Output = T> + From<u8>] () -> Product<T> ; <Product<T> as Monoid>::empty() ; Product(T::from(1)) }
law!{ sum_int_empty_left [] (x: &Sum<i32>) -> Sum<i32> ; <Sum<i32> as Monoid>::empty().combine(x) ; x.clone() }
law!{ sum_int_empty_right [] (x: &Sum<i32>) -> Sum<i32> ; x.combine(&<Sum<i32> as Monoid>::empty()) ; x.clone() }
law!{ product_int_empty_left [] (x: &Product<i32>) -> Product<i32> ; <Product<i32> as Monoid>::empty().combine(x) ; x.clone() }
law!{ product_int_empty_right [] (x: &Product<i32>) -> Product<i32> ; x.combine(&<Product<i32> as Monoid>::empty()) ; x.clone() }
law!{ predicate_combine [A: 'static] (p: &Predicate<A>, q: &Predicate<A>, a: &A) -> bool ; p.combine(q).contains(a) ; p.contains(a) || q.contains(a) }
law!{ predicate_combine_owned [A: 'static] (p: Predicate<A>, q: Predicate<A>, a: &A) -> bool ; p.combine_owned(q).contains(a) ; p.contains(a) || q.contains(a) }
law!{ predicate_empty [A: 'static] (a: &A) -> bool ; <Predicate<A> as Monoid>::empty().contains(a) ; false }
mo!{ string_m [] String }
mo!{ vec_m [T: Clone] Vec<T> }
mo!{ first_m [T: Clone] First<T> }
mo!{ last_m [T: Clone] Last<T> }
mo!{ choice_m [T: Clone] Choice<T> }
mo!{ validated_m [E: Clone, A: Clone] Validated<E, A> }
mo!{ max_m [T: Clone + Ord + Default] Max<T> }
mo!{ min_m [T: Clone + Ord + Default] Min<T> }
law!{ hashmap_combine [K: Eq + Hash + Clone, V: Semigroup + Clone] (a: &HashMap<K, V>, b: &HashMap<K, V>) -> HashMap<K, V> ; a.combine(b) ; { let mut r = a.clone(); for (k, v) in b { match r.get(k) { Some(e) => { let n = e.combine(v); r.insert(k.clone(), n); } None => { r.insert(k.clone(), v.clone()); } } } r } }
law!{ hashmap_combine_owned [K: Eq + Hash + Clone, V: Semigroup + Clone] (a: HashMap<K, V>, b: HashMap<K, V>) -> HashMap<K, V> ; a.clone().combine_owned(b.clone()) ; { let mut r = a; for (k, v) in b { match r.get(&k) { Some(e) => { let n = e.combine(&v); r.insert(k.clone(), n); } None => { r.insert(k.clone(), v.clone()); } } } r } }
law!{ btreemap_combine [K: Ord + Clone, V: Semigroup + Clone] (a: &BTreeMap<K, V>, b: &BTreeMap<K, V>) -> BTreeMap<K, V> ; a.combine(b) ; { let mut r = a.clone(); for (k, v) in b { match r.get(k) { Some(e) => { let n = e.combine(v); r.insert(k.clone(), n); } None => { r.insert(k.clone(), v.clone()); } } } r } }
law!{ btreemap_combine_owned [K: Ord + Clone, V: Semigroup + Clone] (a: BTreeMap<K, V>, b: BTreeMap<K, V>) -> BTreeMap<K, V> ; a.clone().combine_owned(b.clone()) ; { let mut r = a; for (k, v) in b { match r.get(&k) { Some(e) => { let n = e.combine(&v); r.insert(k.clone(), n); } None => { r.insert(k.clone(), v.clone()); } } } r } }
law!{ hashset_combine [T: Eq + Hash + Clone] (a: &HashSet<T>, b: &HashSet<T>) -> HashSet<T> ; a.combine(b) ; { let mut r = a.clone(); for x in b { r.insert(x.clone()); } r } }
law!{ hashset_combine_owned [T: Eq + Hash + Clone] (a: HashSet<T>, b: HashSet<T>) -> HashSet<T> ; a.clone().combine_owned(b.clone()) ; { let mut r = a; for x in b { r.insert(x); } r } }
law!{ btreeset_combine [T: Ord + Clone] (a: &BTreeSet<T>, b: &BTreeSet<T>) -> BTreeSet<T> ; a.combine(b) ; { let mut r = a.clone(); for x in b { r.insert(x.clone()); } r } }
law!{ btreeset_combine_owned [T: Ord + Clone] (a: BTreeSet<T>, b: BTreeSet<T>) -> BTreeSet<T> ; a.clone().combine_owned(b.clone()) ; { let mut r = a; for x in b { r.insert(x); } r } }
law!{ combine_all [T: Semigroup + Clone] (a: T, xs: Vec<T>) -> T ; SemigroupExt::combine_all(a, xs) ; { let mut r = a; for x in xs { r = r.combine(&x); } r } }
law!{ combine_all_any [T: Semigroup + Clone, IT: Iterator<Item = T> + Clone] (a: T, xs: IT) -> T ; SemigroupExt::combine_all(a, xs) ; { let xs: Vec<T> = xs.collect(); { let mut r = a; for x in xs { r = r.combine(&x); } r } } }
law!{ combine_all_owned [T: Semigroup + Clone] (a: T, xs: Vec<T>) -> T ; <T as SemigroupExt>::combine_all_owned(cat(one(a), xs)) ; { let mut r = a; for x in xs { r = r.combine(&x); } r } }
law!{ combine_n [T: Semigroup + Clone] (a: &T, n: usize) -> T ; a.combine_n(&n) ; { let mut r = a.clone(); for _ in 1..n { r = r.combine(a); } r } }
law!{ combine_n_owned [T: Semigroup + Clone] (a: T, n: usize) -> T ; a.clone().combine_n_owned(n) ; { let mut r = a.clone(); for _ in 1..n { r = r.combine(&a); } r } }
law!{ id_monoid_empty [T: Monoid + Clone] () -> T ; <Id<T> as Monoid>::empty().into_inner() ; T::empty() }
law!{ combine_all_values [T: Semigroup + Clone] (xs: Vec<T>) -> Option<T> ; semigroup::combine_all_values(xs) ; { let mut r: Option<T> = None; for x in xs { r = match r { None => Some(x), Some(a) => Some(a.combine(&x)) }; } r } }
law!{ combine_all_values_any [T: Semigroup + Clone, IT: Iterator<Item = T> + Clone] (xs: IT) -> Option<T> ; semigroup::combine_all_values(xs) ; { let xs: Vec<T> = xs.collect(); { let mut r: Option<T> = None; for x in xs { r = match r { None => Some(x), Some(a) => Some(a.combine(&x)) }; } r } } }
law!{ combine_values [T: Semigroup + Clone] (a: T, xs: Vec<T>) -> T ; semigroup::combine_values(a, xs) ; { let mut r = a; for x in xs { r = r.combine(&x); } r } }
law!{ combine_values_any [T: Semigroup + Clone, IT: Iterator<Item = T> + Clone] (a: T, xs: IT) -> T ; semigroup::combine_values(a, xs) ; { let xs: Vec<T> = xs.collect(); { let mut r = a; for x in xs { r = r.combine(&x); } r } } }
law!{ monoid_combine_all [M: Monoid + Clone] (xs: Vec<M>) -> M ; monoid::combine_all(xs) ; if xs.is_empty() { M::empty() } else { let mut r = xs[0].clone(); for x in &xs[1..] { r = r.combine(x); } r } }
law!{ monoid_combine_all_any [M: Monoid + Clone, IT: Iterator<Item = M> + Clone] (xs: IT) -> M ; monoid::combine_all(xs) ; { let xs: Vec<M> = xs.collect(); if xs.is_empty() { M::empty() } else { let mut r = xs[0].clone(); for x in &xs[1..] { r = r.combine(x); } r } } }
law!{ mconcat [M: Monoid + Clone] (xs: Vec<M>) -> M ; monoid::mconcat(&xs) ; if xs.is_empty() { M::empty() } else { let mut r = xs[0].clone(); for x in &xs[1..] { r = r.combine(x); } r } }
law!{ repeat [M: Monoid + Clone] (a: M, n: usize) -> M ; monoid::repeat(a, n) ; if n == 0 { M::empty() } else { let mut r = a.clone(); for _ in 1..n { r = r.combine(&a); } r } }
law!{ power [M: Monoid + Clone] (a: M, n: usize) -> M ; monoid::power(a, n) ; if n == 0 { M::empty() } else { let mut r = a.clone(); for _ in 1..n { r = r.combine(&a); } r } }
law!{ is_empty_monoid [M: Monoid + PartialEq] (a: &M) -> bool ; a.is_empty_monoid() ; *a == M::empty() }
macro_rules! unw { ($n:ident [$($g:tt)*] $t:ident) => { pub mod $n { use super::*;
    law!{ unwrap [T: Clone $($g)*] (x: &$t<T>) -> T ; x.unwrap() ; x.0.clone() }
    law!{ unwrap_or [T: Clone $($g)*] (x: &$t<T>, d: T) -> T ; x.unwrap_or(d) ; x.0.clone() }
    law!{ as_ref [T: Clone $($g)*] (x: &$t<T>) -> T ; AsRef::<T>::as_ref(x).clone() ; x.0.clone() }
    law!{ from [T: Clone $($g)*] (x: T) -> $t<T> ; $t::from(x) ; $t(x) }
} } }
unw!{ sum_u [] Sum }
unw!{ product_u [] Product }
unw!{ max_u [] Max }
unw!{ min_u [] Min }
macro_rules! unwo { ($n:ident $t:ident) => { pub mod $n { use super::*;
    law!{ unwrap [T: Clone] (x: T) -> T ; $t(Some(x)).unwrap() ; x }
    law!{ unwrap_or [T: Clone] (x: &$t<T>, d: T) -> T ; x.unwrap_or(d) ; match &x.0 { Some(v) => v.clone(), None => d } }
    law!{ as_ref [T: Clone] (x: T) -> T ; AsRef::<T>::as_ref(&$t(Some(x))).clone() ; x }
    law!{ from [T: Clone] (x: T) -> $t<T> ; $t::from(x) ; $t(Some(x)) }
} } }
unwo!{ first_u First }
unwo!{ last_u Last }
//@also c24: seq::combine|seq::combine_owned|seq::empty|concat::.*
