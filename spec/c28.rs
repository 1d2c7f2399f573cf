use super::refs::*;
law!{ new [T: Clone] (x: T, xs: Vec<T>) -> Vec<T> ; pv(&Choice::new(x.clone(), xs.clone())) ; { let mut v = Vec::new(); v.push(x); for y in xs { v.push(y); } v } }
law!{ new_any [T: Clone, IT: Iterator<Item = T> + Clone] (x: T, xs: IT) -> Vec<T> ; pv(&Choice::new(x.clone(), xs.clone())) ; { let xs: Vec<T> = xs.collect(); { let mut v = Vec::new(); v.push(x); for y in xs { v.push(y); } v } } }
law!{ of_many [T: Clone] (xs: Vec<T>) -> Vec<T> ; pv(&Choice::of_many(xs.clone())) ; xs }
law!{ of_many_any [T: Clone, IT: Iterator<Item = T> + Clone] (xs: IT) -> Vec<T> ; pv(&Choice::of_many(xs.clone())) ; { let xs: Vec<T> = xs.collect(); xs } }
law!{ from_iter [T: Clone] (xs: Vec<T>) -> Vec<T> ; pv(&xs.clone().into_iter().collect::<Choice<T>>()) ; xs }
law!{ from_iter_any [T: Clone, IT: Iterator<Item = T> + Clone] (xs: IT) -> Vec<T> ; pv(&xs.clone().into_iter().collect::<Choice<T>>()) ; { let xs: Vec<T> = xs.collect(); xs } }
law!{ from_vec [T: Clone] (xs: Vec<T>) -> Vec<T> ; pv(&Choice::from(xs.clone())) ; xs }
law!{ from_slice [T: Clone] (xs: Vec<T>) -> Vec<T> ; pv(&Choice::from(xs.as_slice())) ; xs }
law!{ into_vec [T: Clone] (c: Choice<T>) -> Vec<T> ; Vec::from(c.clone()) ; pv(&c) }
law!{ into_iter [T: Clone] (c: Choice<T>) -> Vec<T> ; { let mut v = Vec::new(); for x in c.clone() { v.push(x); } v } ; pv(&c) }
law!{ ref_iter [T: Clone] (c: Choice<T>) -> Vec<T> ; { let mut v = Vec::new(); for x in &c { v.push(x.clone()); } v } ; pv(&c) }
law!{ to_vec [T: Clone] (c: &Choice<T>) -> Vec<T> ; c.to_vec() ; pv(c) }
law!{ new_empty [T: Clone] () -> Vec<T> ; pv(&Choice::<T>::new_empty()) ; Vec::new() }
law!{ default [T: Clone + Default] () -> Vec<T> ; pv(&Choice::<T>::default()) ; Vec::new() }
law!{ first [T: Clone] (c: &Choice<T>) -> Option<T> ; c.first().cloned() ; match c.iter().next() { Some(x) => Some(x.clone()), None => None } }
law!{ alternatives [T: Clone] (c: &Choice<T>) -> Vec<T> ; c.alternatives().to_vec() ; { let v = pv(c); if v.len() <= 1 { Vec::new() } else { v[1..].to_vec() } } }
law!{ iter_alternatives [T: Clone] (c: &Choice<T>) -> Vec<T> ; { let mut v = Vec::new(); for x in c.iter_alternatives() { v.push(x.clone()); } v } ; { let v = pv(c); if v.len() <= 1 { Vec::new() } else { v[1..].to_vec() } } }
law!{ has_alternatives [T: Clone] (c: &Choice<T>) -> bool ; c.has_alternatives() ; pv(c).len() > 1 }
law!{ len [T: Clone] (c: &Choice<T>) -> usize ; c.len() ; pv(c).len() }
law!{ is_empty [T: Clone] (c: &Choice<T>) -> bool ; c.is_empty() ; pv(c).is_empty() }
law!{ find_first [T: Clone, P: Fn(&T) -> bool] (c: &Choice<T>, p: P) -> Option<T> ; c.find_first(|x| p(x)).cloned() ; { for x in c.iter() { if p(x) { return Some(x.clone()); } } None } }
law!{ fold [T: Clone, B, F: Fn(B, &T) -> B] (c: &Choice<T>, b: B, f: F) -> B ; c.fold(b, f) ; { let mut a = b; for x in c.iter() { a = f(a, x); } a } }
law!{ add_alternatives [T: Clone] (c: Choice<T>, xs: Vec<T>) -> Vec<T> ; pv(&c.clone().add_alternatives(xs.clone())) ; { let mut v = pv(&c); for x in xs { v.push(x); } v } }
law!{ add_alternatives_any [T: Clone, IT: Iterator<Item = T> + Clone] (c: Choice<T>, xs: IT) -> Vec<T> ; pv(&c.clone().add_alternatives(xs.clone())) ; { let xs: Vec<T> = xs.collect(); { let mut v = pv(&c); for x in xs { v.push(x); } v } } }
law!{ combine [T: Clone] (a: &Choice<T>, b: &Choice<T>) -> Vec<T> ; pv(&a.combine(b)) ; { let mut v = pv(a); for x in pv(b) { v.push(x); } v } }
law!{ combine_owned [T: Clone] (a: Choice<T>, b: Choice<T>) -> Vec<T> ; pv(&a.clone().combine_owned(b.clone())) ; { let mut v = pv(&a); for x in pv(&b) { v.push(x); } v } }
law!{ empty [T: Clone] () -> Vec<T> ; pv(&<Choice<T> as Monoid>::empty()) ; Vec::new() }
law!{ alt [T: Clone] (a: &Choice<T>, b: &Choice<T>) -> Vec<T> ; pv(&a.alt(b)) ; { let mut v = pv(a); for x in pv(b) { v.push(x); } v } }
law!{ mplus [T: Clone] (a: &Choice<T>, b: &Choice<T>) -> Vec<T> ; pv(&a.mplus(b)) ; { let mut v = pv(a); for x in pv(b) { v.push(x); } v } }
law!{ mplus_owned [T: Clone] (a: Choice<T>, b: Choice<T>) -> Vec<T> ; pv(&a.clone().mplus_owned(b.clone())) ; { let mut v = pv(&a); for x in pv(&b) { v.push(x); } v } }
law!{ from_choices [T: Clone] (cs: Vec<Choice<T>>) -> Vec<T> ; pv(&cs.clone().into_iter().collect::<Choice<T>>()) ; { let mut v = Vec::new(); for c in cs { for x in c.iter() { v.push(x.clone()); } } v } }
law!{ from_choices_any [T: Clone, IT: Iterator<Item = Choice<T>> + Clone] (cs: IT) -> Vec<T> ; pv(&cs.clone().into_iter().collect::<Choice<T>>()) ; { let cs: Vec<Choice<T>> = cs.collect(); { let mut v = Vec::new(); for c in cs { for x in c.iter() { v.push(x.clone()); } } v } } }
law!{ sum [T: Clone + Default] (cs: Vec<Choice<T>>) -> Vec<T> ; pv(&cs.clone().into_iter().sum::<Choice<T>>()) ; { let mut v = Vec::new(); for c in cs { for x in c.iter() { v.push(x.clone()); } } v } }
law!{ sum_any [T: Clone + Default, IT: Iterator<Item = Choice<T>> + Clone] (cs: IT) -> Vec<T> ; pv(&cs.clone().into_iter().sum::<Choice<T>>()) ; { let cs: Vec<Choice<T>> = cs.collect(); { let mut v = Vec::new(); for c in cs { for x in c.iter() { v.push(x.clone()); } } v } } }
law!{ filter_values [T: Clone, P: Fn(&T) -> bool] (c: &Choice<T>, p: P) -> Vec<T> ; pv(&c.filter_values(|x| p(x))) ; { let mut v = Vec::new(); for x in c.iter() { if p(x) { v.push(x.clone()); } } v } }
law!{ filter [T: Clone, P: Fn(&T) -> bool] (c: &Choice<T>, p: P) -> Vec<T> ; pv(&c.filter(|x| p(x))) ; { let s = pv(c); let mut v = Vec::new(); if !s.is_empty() { v.push(s[0].clone()); for x in &s[1..] { if p(x) { v.push(x.clone()); } } } v } }
law!{ fmap_alternatives [T: Clone, F: Fn(&T) -> T] (c: &Choice<T>, f: F) -> Vec<T> ; pv(&c.fmap_alternatives(|x| f(x))) ; { let s = pv(c); let mut v = Vec::new(); if !s.is_empty() { v.push(s[0].clone()); for x in &s[1..] { v.push(f(x)); } } v } }
law!{ fmap [A: Clone, B: Clone, F: Fn(&A) -> B] (c: &Choice<A>, f: F) -> Vec<B> ; pv(&c.fmap(|x| f(x))) ; { let mut v = Vec::new(); for x in c.iter() { v.push(f(x)); } v } }
law!{ fmap_owned [A: Clone, B: Clone, F: Fn(A) -> B] (c: Choice<A>, f: F) -> Vec<B> ; pv(&c.clone().fmap_owned(|x| f(x))) ; { let mut v = Vec::new(); for x in c { v.push(f(x)); } v } }
law!{ bind [A: Clone, B: Clone, F: Fn(&A) -> Choice<B>] (c: &Choice<A>, f: F) -> Vec<B> ; pv(&c.bind(|x| f(x))) ; { let mut v = Vec::new(); for x in c.iter() { for y in f(x).iter() { v.push(y.clone()); } } v } }
law!{ bind_owned [A: Clone, B: Clone, F: Fn(A) -> Choice<B>] (c: Choice<A>, f: F) -> Vec<B> ; pv(&c.clone().bind_owned(|x| f(x))) ; { let mut v = Vec::new(); for x in c { for y in f(x).iter() { v.push(y.clone()); } } v } }
law!{ bind_lazy [A: Clone, B: Clone, F: Fn(&A) -> Choice<B>] (c: Choice<A>, f: F) -> Vec<B> ; c.bind_lazy(|x| f(x)).collect::<Vec<B>>() ; { let mut v = Vec::new(); for x in c.iter() { for y in f(x).iter() { v.push(y.clone()); } } v } }
law!{ join [A: Clone] (c: &Choice<Choice<A>>) -> Vec<A> ; pv::<A>(&c.join()) ; { let mut v = Vec::new(); for x in c.iter() { for y in x.iter() { v.push(y.clone()); } } v } }
law!{ join_owned [A: Clone] (c: Choice<Choice<A>>) -> Vec<A> ; pv::<A>(&c.clone().join_owned()) ; { let mut v = Vec::new(); for x in c.iter() { for y in x.iter() { v.push(y.clone()); } } v } }
law!{ try_flatten [A: Clone] (c: &Choice<Vec<A>>) -> Option<Vec<A>> ; match c.try_flatten() { Ok(r) => Some(pv(&r)), Err(_) => None } ; { let s = pv(c); if s.is_empty() { Some(Vec::new()) } else if s[0].is_empty() { None } else { let mut v = Vec::new(); for x in s { for y in x { v.push(y); } } Some(v) } } }
law!{ flatten [A: Clone] (c: &Choice<Vec<A>>, k: A) -> Vec<A> ; { if c.is_empty() || c.first().unwrap().is_empty() { return Vec::new(); } pv(&c.flatten()) } ; { let s = pv(c); if s.is_empty() || s[0].is_empty() { Vec::new() } else { let mut v = Vec::new(); for x in s { for y in x { v.push(y); } } v } } }
law!{ sequence [A: Clone] (c: Choice<Option<A>>) -> Option<Vec<A>> ; match c.sequence() { Some(r) => Some(pv(&r)), None => None } ; { let mut v = Vec::new(); for x in c.iter() { match x { Some(y) => v.push(y.clone()), None => return None } } Some(v) } }
law!{ lift2 [A: Clone, B: Clone, C: Clone, F: Fn(&A, &B) -> C] (f: F, a: &Choice<A>, b: &Choice<B>) -> Vec<C> ; pv(&Choice::<()>::lift2(|x: &A, y: &B| f(x, y), a, b)) ; { let mut v = Vec::new(); for x in a.iter() { for y in b.iter() { v.push(f(x, y)); } } v } }
law!{ lift2_owned [A: Clone, B: Clone, C: Clone, F: Fn(A, B) -> C] (f: F, a: Choice<A>, b: Choice<B>) -> Vec<C> ; pv(&Choice::<()>::lift2_owned(|x: A, y: B| f(x, y), a.clone(), b.clone())) ; { let mut v = Vec::new(); for x in a.iter() { for y in b.iter() { v.push(f(x.clone(), y.clone())); } } v } }
law!{ lift3 [A: Clone, B: Clone, C: Clone, D: Clone, F: Fn(&A, &B, &C) -> D] (f: F, a: &Choice<A>, b: &Choice<B>, c: &Choice<C>) -> Vec<D> ; pv(&Choice::<()>::lift3(|x: &A, y: &B, z: &C| f(x, y, z), a, b, c)) ; { let mut v = Vec::new(); for x in a.iter() { for y in b.iter() { for z in c.iter() { v.push(f(x, y, z)); } } } v } }
law!{ lift3_owned [A: Clone, B: Clone, C: Clone, D: Clone, F: Fn(A, B, C) -> D] (f: F, a: Choice<A>, b: Choice<B>, c: Choice<C>) -> Vec<D> ; pv(&Choice::<()>::lift3_owned(|x: A, y: B, z: C| f(x, y, z), a.clone(), b.clone(), c.clone())) ; { let mut v = Vec::new(); for x in a.iter() { for y in b.iter() { for z in c.iter() { v.push(f(x.clone(), y.clone(), z.clone())); } } } v } }
vlaw!{ apply [A: Clone, B: Clone, F: Fn(&A) -> B + Clone] (mf: &Choice<F>, m: &Choice<A>) -> Vec<B> ; pv(&mf.apply(m)) ; { let mut v = Vec::new(); for x in m.iter() { for f in mf.iter() { v.push(f(x)); } } v } }
vlaw!{ apply_owned [A: Clone, B: Clone, F: Fn(A) -> B + Clone] (mf: Choice<F>, m: Choice<A>) -> Vec<B> ; pv(&mf.clone().apply_owned(m.clone())) ; { let mut v = Vec::new(); for x in m.iter() { for f in mf.iter() { v.push(f(x.clone())); } } v } }
law!{ pure [A: Clone] (x: &A) -> Vec<A> ; pv(&<Choice<()> as Pure>::pure(x)) ; { let mut v = Vec::new(); v.push(x.clone()); v } }
law!{ pure_owned [A: Clone] (x: A) -> Vec<A> ; pv(&<Choice<()> as Pure>::pure_owned(x.clone())) ; { let mut v = Vec::new(); v.push(x); v } }
law!{ many [A: Clone] (c: &Choice<A>) -> Vec<Vec<A>> ; pv(&c.many()) ; match c.iter().next() { Some(x) => { let mut w = Vec::new(); w.push(x.clone()); let mut v = Vec::new(); v.push(w); v }, None => Vec::new() } }
law!{ fold_left [T: Clone, B: Clone, F: Fn(&B, &T) -> B] (c: &Choice<T>, b: &B, f: F) -> B ; c.fold_left(b, f) ; { let mut a = b.clone(); for x in c.iter() { a = f(&a, x); } a } }
law!{ try_remove [T: Clone] (c: Choice<T>, i: usize) -> Option<Vec<T>> ; match c.clone().try_remove_alternative(i) { Ok(r) => Some(pv(&r)), Err(_) => None } ; { let mut v = pv(&c); if v.len() <= 1 { None } else if i >= v.len() - 1 { None } else { v.remove(i + 1); Some(v) } } }
law!{ value [T: Clone] (x: T, xs: Vec<T>) -> T ; crate::traits::identity::Identity::value(&Choice::new(x.clone(), xs)).clone() ; x }
law!{ into_value [T: Clone] (x: T, xs: Vec<T>) -> T ; crate::traits::identity::Identity::into_value(Choice::new(x.clone(), xs)) ; x }
law!{ dedup [T: Clone + std::hash::Hash + Eq] (c: &Choice<T>) -> Vec<T> ; pv(&c.dedup()) ; { let mut seen = std::collections::HashSet::new(); let mut v = Vec::new(); for x in c.iter() { if seen.insert(x) { v.push(x.clone()); } } v } }
law!{ dedup_by_key [T: Clone, K: std::hash::Hash + Eq, F: Fn(&T) -> K] (c: &Choice<T>, f: F) -> Vec<T> ; pv(&c.dedup_by_key(|x| f(x))) ; { let mut seen = std::collections::HashSet::new(); let mut v = Vec::new(); for x in c.iter() { if seen.insert(f(x)) { v.push(x.clone()); } } v } }
law!{ to_map_with_key [T: Clone, K: std::hash::Hash + Eq, F: Fn(&T) -> K] (c: &Choice<T>, f: F) -> std::collections::HashMap<K, T> ; c.to_map_with_key(|x| f(x)) ; { let mut m = std::collections::HashMap::new(); for x in c.iter() { let k = f(x); if !m.contains_key(&k) { m.insert(k, x.clone()); } } m } }
law!{ remove_alternative [T: Clone] (c: Choice<T>, i: usize, d: T) -> Vec<T> ; { if c.len() > 1 && i < c.len() - 1 { pv(&c.clone().remove_alternative(i)) } else { Vec::new() } } ; { let mut v = pv(&c); if v.len() > 1 && i < v.len() - 1 { v.remove(i + 1); v } else { Vec::new() } } }
law!{ try_swap [T: Clone] (c: Choice<T>, i: usize) -> Option<Vec<T>> ; match c.clone().try_swap_with_alternative(i) { Ok(r) => Some(pv(&r)), Err(_) => None } ; { let v = pv(&c); if v.len() <= 1 || i >= v.len() - 1 { None } else { let mut r = Vec::new(); r.push(v[i + 1].clone()); for j in 1..i + 1 { r.push(v[j].clone()); } r.push(v[0].clone()); for j in i + 2..v.len() { r.push(v[j].clone()); } Some(r) } } }
law!{ swap [T: Clone] (c: Choice<T>, i: usize) -> Vec<T> ; { if c.len() > 1 && i < c.len() - 1 { pv(&c.clone().swap_with_alternative(i)) } else { Vec::new() } } ; { let v = pv(&c); if v.len() > 1 && i < v.len() - 1 { let mut r = Vec::new(); r.push(v[i + 1].clone()); for j in 1..i + 1 { r.push(v[j].clone()); } r.push(v[0].clone()); for j in i + 2..v.len() { r.push(v[j].clone()); } r } else { Vec::new() } } }
vlaw!{ flatten_sorted [A: Clone + Ord] (c: &Choice<Vec<A>>) -> Vec<A> ; { if c.is_empty() || c.first().unwrap().is_empty() { return Vec::new(); } pv(&c.flatten_sorted()) } ; { let s = pv(c); if s.is_empty() || s[0].is_empty() { Vec::new() } else { let mut w = Vec::new(); for x in &s[1..] { for y in x { w.push(y.clone()); } } for y in &s[0][1..] { w.push(y.clone()); } w.sort(); let mut v = Vec::new(); v.push(s[0][0].clone()); for y in w { v.push(y); } v } } }
