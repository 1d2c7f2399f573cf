//! Memoizer: sequential behaviour as laws, behaviour under interference as roots for the lock rule.
use super::refs::*;
use crate::datatypes::wrapper::memoizer::Memoizer;
use std::hash::Hash;

law!(first_request [K: V + Eq + Hash, T: V] (k: K, f: impl Fn(&K) -> T) -> T ; { let m = Memoizer::new(); m.get_or_compute(k, f) } ; f(&k));
law!(first_request_default [K: V + Eq + Hash, T: V] (k: K, f: impl Fn(&K) -> T) -> T ; { let m: Memoizer<K, T> = Default::default(); m.get_or_compute(k, f) } ; f(&k));
law!(second_request [K: V + Eq + Hash, T: V] (k: K, f: impl Fn(&K) -> T, g: impl Fn(&K) -> T) -> (T, T) ; { let m = Memoizer::new(); let a = m.get_or_compute(k.clone(), f); let b = m.get_or_compute(k, g); (a, b) } ; { let a = f(&k); (a.clone(), a) });
law!(third_request [K: V + Eq + Hash, T: V] (k: K, f: impl Fn(&K) -> T, g: impl Fn(&K) -> T) -> (T, T, T) ; { let m = Memoizer::new(); let a = m.get_or_compute(k.clone(), f); let b = m.get_or_compute(k.clone(), &g); let c = m.get_or_compute(k, g); (a, b, c) } ; { let a = f(&k); (a.clone(), a.clone(), a) });
law!(two_keys [K: V + Eq + Hash, T: V] (k: K, j: K, f: impl Fn(&K) -> T, g: impl Fn(&K) -> T) -> (T, T) ; { let m = Memoizer::new(); let a = m.get_or_compute(k, f); let b = m.get_or_compute(j, g); (a, b) } ; { let a = f(&k); if j == k { (a.clone(), a) } else { (a, g(&j)) } });
law!(two_keys_back [K: V + Eq + Hash, T: V] (k: K, j: K, f: impl Fn(&K) -> T, g: impl Fn(&K) -> T) -> (T, T, T) ; { let m = Memoizer::new(); let a = m.get_or_compute(k.clone(), &f); let b = m.get_or_compute(j, g); let c = m.get_or_compute(k, f); (a, b, c) } ; { let a = f(&k); if j == k { (a.clone(), a.clone(), a) } else { let b = g(&j); (a.clone(), b, a) } });
law!(clear_forgets [K: V + Eq + Hash, T: V] (k: K, f: impl Fn(&K) -> T, g: impl Fn(&K) -> T) -> (T, T) ; { let m = Memoizer::new(); let a = m.get_or_compute(k.clone(), f); m.clear(); let b = m.get_or_compute(k, g); (a, b) } ; { let a = f(&k); let b = g(&k); (a, b) });
law!(clear_forgets_all [K: V + Eq + Hash, T: V] (k: K, j: K, f: impl Fn(&K) -> T, g: impl Fn(&K) -> T) -> (T, T, T) ; { let m = Memoizer::new(); let a = m.get_or_compute(k, f); let b = m.get_or_compute(j.clone(), &g); m.clear(); let c = m.get_or_compute(j, g); (a, b, c) } ; { let a = f(&k); if j == k { let c = g(&j); (a.clone(), a, c) } else { let b = g(&j); let c = g(&j); (a, b, c) } });
law!(clear_empty [K: V + Eq + Hash, T: V] (k: K, f: impl Fn(&K) -> T) -> T ; { let m = Memoizer::new(); m.clear(); m.get_or_compute(k, f) } ; f(&k));
root!(shared_request [K: V + Eq + Hash, T: V] (m: &Memoizer<K, T>, k: K, f: impl Fn(&K) -> T) -> T ; m.get_or_compute(k, f));
root!(shared_clear [K: V + Eq + Hash, T: V] (m: &Memoizer<K, T>) -> () ; m.clear());
