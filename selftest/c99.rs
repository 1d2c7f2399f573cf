use super::refs::*;
// Models of the standard library against their definitions (tools/selftest.sh); wrong_* must be refuted.
law!{ step_by [A: Clone] (v: Vec<A>) -> Vec<A> ; v.iter().step_by(2).cloned().collect() ; { let mut r = Vec::new(); for (i, x) in v.iter().enumerate() { if i % 2 == 0 { r.push(x.clone()); } } r } }
vlaw!{ scan [A: Clone, F: Fn(&A, &A) -> A] (v: Vec<A>, a: A, f: F) -> Vec<A> ; v.iter().scan(a.clone(), |s, x| { let n = f(s, x); *s = n.clone(); Some(n) }).collect() ; { let mut r = Vec::new(); let mut s = a; for x in v.iter() { s = f(&s, x); r.push(s.clone()); } r } }
vlaw!{ take_while [A: Clone, P: Fn(&A) -> bool] (v: Vec<A>, p: P) -> Vec<A> ; v.iter().take_while(|x| p(x)).cloned().collect() ; { let mut r = Vec::new(); for x in v.iter() { if !p(x) { break; } r.push(x.clone()); } r } }
vlaw!{ skip_while [A: Clone, P: Fn(&A) -> bool] (v: Vec<A>, p: P) -> Vec<A> ; v.iter().skip_while(|x| p(x)).cloned().collect() ; { let mut r = Vec::new(); let mut on = false; for x in v.iter() { if on || !p(x) { on = true; r.push(x.clone()); } } r } }
vlaw!{ map_while [A: Clone, P: Fn(&A) -> Option<A>] (v: Vec<A>, p: P) -> Vec<A> ; v.iter().map_while(|x| p(x)).collect() ; { let mut r = Vec::new(); for x in v.iter() { match p(x) { Some(y) => r.push(y), None => break } } r } }
law!{ nth [A: Clone] (v: Vec<A>, n: usize) -> Option<A> ; v.iter().nth(n).cloned() ; v.get(n).cloned() }
law!{ peekable [A: Clone] (v: Vec<A>) -> (Option<A>, Vec<A>) ; { let mut i = v.iter().peekable(); let a = i.peek().map(|x| (*x).clone()); (a, i.cloned().collect()) } ; (v.first().cloned(), v.clone()) }
law!{ fuse [A: Clone] (v: Vec<A>) -> Vec<A> ; v.iter().fuse().cloned().collect() ; v.clone() }
law!{ copied [A: Copy] (v: Vec<A>) -> Vec<A> ; v.iter().copied().collect() ; v.clone() }
law!{ rfold [A: Clone, B, F: Fn(B, &A) -> B] (v: Vec<A>, b: B, f: F) -> B ; v.iter().rfold(b, |a, x| f(a, x)) ; { let mut r = b; for x in v.iter().rev() { r = f(r, x); } r } }
law!{ rfind [A: Clone, P: Fn(&A) -> bool] (v: Vec<A>, p: P) -> Option<A> ; v.iter().rfind(|x| p(x)).cloned() ; { for x in v.iter().rev() { if p(x) { return Some(x.clone()); } } None } }
law!{ imax [A: Clone + Ord] (v: Vec<A>) -> Option<A> ; v.iter().max().cloned() ; { let mut r: Option<A> = None; for x in v.iter() { r = match r { None => Some(x.clone()), Some(m) => if m.cmp(x) == std::cmp::Ordering::Greater { Some(m) } else { Some(x.clone()) } }; } r } }
law!{ imin [A: Clone + Ord] (v: Vec<A>) -> Option<A> ; v.iter().min().cloned() ; { let mut r: Option<A> = None; for x in v.iter() { r = match r { None => Some(x.clone()), Some(m) => if m.cmp(x) == std::cmp::Ordering::Greater { Some(x.clone()) } else { Some(m) } }; } r } }
law!{ retain [A: Clone, P: Fn(&A) -> bool] (v: Vec<A>, p: P) -> Vec<A> ; { let mut r = v; r.retain(|x| p(x)); r } ; { let mut r = Vec::new(); for x in v { if p(&x) { r.push(x); } } r } }
law!{ svec_retain [A: Clone, P: Fn(&A) -> bool] (v: SmallVec<[A; 8]>, p: P) -> SmallVec<[A; 8]> ; { let mut r = v; r.retain(|x| p(x)); r } ; { let mut r = SmallVec::new(); for x in v { if p(&x) { r.push(x); } } r } }
law!{ vdedup [A: Clone + PartialEq] (v: Vec<A>) -> Vec<A> ; { let mut r = v; r.dedup(); r } ; { let mut r: Vec<A> = Vec::new(); for x in v { if r.last() != Some(&x) { r.push(x); } } r } }
law!{ resize [A: Clone] (v: Vec<A>, n: usize, x: A) -> Vec<A> ; { let mut r = v; r.resize(n, x); r } ; { let mut r = v; if n <= r.len() { r.truncate(n); } else { for _ in r.len()..n { r.push(x.clone()); } } r } }
law!{ splice [A: Clone] (v: Vec<A>, w: Vec<A>) -> Vec<A> ; { let mut r = v; r.splice(0..0, w); r } ; { let mut r = w; r.extend(v); r } }
law!{ boxed [A: Clone] (v: Vec<A>) -> Vec<A> ; v.clone().into_boxed_slice().into_vec() ; v }
law!{ extend_within [A: Clone] (v: Vec<A>) -> Vec<A> ; { let mut r = v; r.extend_from_within(..); r } ; { let mut r = v.clone(); r.extend(v); r } }
law!{ rotate_left [A: Clone] (v: Vec<A>) -> Vec<A> ; { let mut r = v; if r.len() > 1 { r.rotate_left(1); } r } ; { if v.len() > 1 { let mut r = v[1..].to_vec(); r.push(v[0].clone()); r } else { v } } }
law!{ rotate_right [A: Clone] (v: Vec<A>) -> Vec<A> ; { let mut r = v; if r.len() > 1 { r.rotate_right(1); } r } ; { if v.len() > 1 { let mut r = Vec::new(); r.push(v[v.len() - 1].clone()); for x in &v[..v.len() - 1] { r.push(x.clone()); } r } else { v } } }
law!{ windows [A: Clone] (v: Vec<A>) -> Vec<Vec<A>> ; v.windows(2).map(|w| w.to_vec()).collect() ; { let mut r = Vec::new(); if v.len() > 1 { for i in 0..v.len() - 1 { r.push(v[i..i + 2].to_vec()); } } r } }
law!{ rchunks_len [A: Clone] (v: Vec<A>) -> usize ; v.rchunks(2).count() ; (v.len() + 1) / 2 }
law!{ starts_with [A: Clone + PartialEq] (v: Vec<A>, a: A) -> bool ; v.starts_with(&[a.clone()]) ; v.first() == Some(&a) }
law!{ fill [A: Clone] (v: Vec<A>, a: A) -> Vec<A> ; { let mut r = v; r.fill(a); r } ; { let mut r = Vec::new(); for _ in v.iter() { r.push(a.clone()); } r } }
law!{ split_at_mut [A: Clone] (v: Vec<A>) -> (Vec<A>, Vec<A>) ; { let mut r = v; let n = r.len(); let (a, b) = r.split_at_mut(n); (a.to_vec(), b.to_vec()) } ; (v, Vec::new()) }
law!{ ends_with [A: Clone + PartialEq] (v: Vec<A>, a: A) -> bool ; v.ends_with(&[a.clone()]) ; v.last() == Some(&a) }
law!{ opt_a [A: Clone, P: Fn(&A) -> bool] (m: Option<A>, n: Option<A>, p: P) -> (Option<A>, Option<A>, Option<A>) ; (m.clone().filter(|x| p(x)), m.clone().or(n.clone()), m.xor(n)) ; (match &m { Some(x) if p(x) => m.clone(), _ => None }, if m.is_some() { m.clone() } else { n.clone() }, match (m, n) { (Some(a), None) => Some(a), (None, Some(b)) => Some(b), _ => None }) }
law!{ opt_b [A: Clone] (m: Option<A>, n: Option<A>, a: A) -> (Option<(A, A)>, A, Option<A>) ; (m.clone().zip(n.clone()), m.clone().unwrap_or(a.clone()), m.and(n)) ; (match (m.clone(), n.clone()) { (Some(a), Some(b)) => Some((a, b)), _ => None }, match &m { Some(x) => x.clone(), None => a }, match m { Some(_) => n, None => None }) }
law!{ opt_c [A: Clone, F: Fn(A) -> A, G: Fn() -> A] (m: Option<A>, f: F, g: G) -> (A, A) ; (m.clone().map_or_else(|| g(), |x| f(x)), m.unwrap_or_else(|| g())) ; (match m.clone() { Some(x) => f(x), None => g() }, match m { Some(x) => x, None => g() }) }
law!{ opt_d [A: Clone] (m: Option<Option<A>>, k: Option<Result<A, u8>>) -> (Option<A>, Result<Option<A>, u8>) ; (m.flatten(), k.transpose()) ; (match m { Some(x) => x, None => None }, match k { Some(Ok(x)) => Ok(Some(x)), Some(Err(e)) => Err(e), None => Ok(None) }) }
law!{ opt_e [A: Clone, P: Fn(A) -> bool] (m: Option<A>, p: P) -> (bool, bool) ; (m.clone().is_some_and(|x| p(x)), m.is_none_or(|x| p(x))) ; (match m.clone() { Some(x) => p(x), None => false }, match m { Some(x) => p(x), None => true }) }
law!{ get_or_insert [A: Clone] (m: Option<A>, a: A) -> (A, Option<A>) ; { let mut n = m; let r = n.get_or_insert_with(|| a.clone()).clone(); (r, n) } ; match m { Some(x) => (x.clone(), Some(x)), None => (a.clone(), Some(a)) } }
law!{ res_a [A: Clone, E: Clone, P: Fn(A) -> bool] (m: Result<A, E>, n: Result<A, E>, p: P) -> (Result<A, E>, Result<A, E>, bool) ; (m.clone().and(n.clone()), m.clone().or(n.clone()), m.is_ok_and(|x| p(x))) ; (match m.clone() { Ok(_) => n.clone(), Err(e) => Err(e) }, match m.clone() { Ok(x) => Ok(x), Err(_) => n.clone() }, match m { Ok(x) => p(x), Err(_) => false }) }
law!{ res_b [A: Clone + Default, E: Clone] (m: Result<A, E>, k: Result<Option<A>, E>) -> (A, Option<Result<A, E>>) ; (m.unwrap_or_default(), k.transpose()) ; (match m { Ok(x) => x, Err(_) => A::default() }, match k { Ok(Some(x)) => Some(Ok(x)), Ok(None) => None, Err(e) => Some(Err(e)) }) }
law!{ bool_then [A: Clone] (b: bool, a: A) -> (Option<A>, Option<A>) ; (b.then(|| a.clone()), b.then_some(a.clone())) ; if b { (Some(a.clone()), Some(a)) } else { (None, None) } }
law!{ ints [] (a: usize, b: usize) -> (usize, usize, usize, usize) ; (a.saturating_sub(b), a.min(b), a.max(b), a.abs_diff(b)) ; (if a > b { a - b } else { 0 }, if a < b { a } else { b }, if a < b { b } else { a }, if a < b { b - a } else { a - b }) }
law!{ ints2 [] (a: usize, b: usize) -> (Option<usize>, Option<usize>) ; (a.checked_sub(b), b.checked_sub(a)) ; (if a >= b { Some(a - b) } else { None }, if b >= a { Some(b - a) } else { None }) }
law!{ iter_repeat [A: Clone] (v: Vec<A>, a: A) -> Vec<(A, A)> ; v.iter().cloned().zip(std::iter::repeat(a.clone())).collect() ; { let mut r = Vec::new(); for x in v.iter() { r.push((x.clone(), a.clone())); } r } }
law!{ iter_zip [A: Clone] (v: Vec<A>, w: Vec<A>) -> Vec<(A, A)> ; std::iter::zip(v.clone(), w.clone()).collect() ; v.into_iter().zip(w).collect() }
vlaw!{ max_by_key [A: Clone, K: Ord, F: Fn(&A) -> K] (v: Vec<A>, f: F) -> Option<A> ; v.iter().max_by_key(|x| f(x)).cloned() ; { let mut r: Option<&A> = None; for x in v.iter() { r = match r { None => Some(x), Some(m) => if f(m) > f(x) { Some(m) } else { Some(x) } }; } r.cloned() } }
law!{ sorted [A: Clone + Ord] (v: Vec<A>) -> Vec<A> ; { let mut r = v; r.sort(); r } ; { let mut r: Vec<A> = Vec::new(); for x in v { let mut i = r.len(); while i > 0 && r[i - 1] > x { i -= 1; } r.insert(i, x); } r } }
law!{ vdq [A: Clone] (v: Vec<A>, w: Vec<A>) -> Vec<A> ; { let mut d: std::collections::VecDeque<A> = v.into_iter().collect(); d.extend(w); for _ in 0..1 { if let Some(x) = d.pop_front() { d.push_back(x); } } d.into_iter().collect() } ; { let mut r = v; r.extend(w); if !r.is_empty() { let x = r.remove(0); r.push(x); } r } }
law!{ vlast [A: Clone] (v: Vec<A>) -> Option<A> ; v.last().cloned() ; { let mut r = None; for x in v { r = Some(x); } r } }
law!{ sv_misc [A: Clone] (v: Vec<A>) -> (Vec<A>, Vec<A>) ; (SmallVec::<[A; 8]>::from_vec(v.clone()).into_vec(), SmallVec::<[A; 8]>::from(v.clone()).to_vec()) ; (v.clone(), v) }
law!{ swap_remove [A: Clone] (v: Vec<A>) -> Vec<A> ; { let mut r = v; if r.len() > 2 { r.swap_remove(0); } r } ; { if v.len() > 2 { let mut r = Vec::new(); r.push(v[v.len() - 1].clone()); for x in &v[1..v.len() - 1] { r.push(x.clone()); } r } else { v } } }
law!{ cycle_take [A: Clone] (v: Vec<A>) -> Vec<A> ; v.iter().cycle().take(v.len()).cloned().collect() ; v.clone() }
law!{ join_strs [] (v: Vec<String>) -> String ; v.join("") ; v.concat() }
law!{ inspect [A: Clone, F: Fn(&A)] (v: Vec<A>, f: F) -> Vec<A> ; v.iter().inspect(|x| f(x)).cloned().collect() ; { let mut r = Vec::new(); for x in v.iter() { f(x); r.push(x.clone()); } r } }
law!{ flat_opt [A: Clone, F: Fn(&A) -> Option<A>] (v: Vec<A>, f: F) -> Vec<A> ; v.iter().flat_map(|x| f(x)).collect() ; { let mut r = Vec::new(); for x in v.iter() { if let Some(y) = f(x) { r.push(y); } } r } }
law!{ last_iter [A: Clone, P: Fn(&A) -> bool] (v: Vec<A>, p: P) -> Option<A> ; v.iter().filter(|x| p(x)).last().cloned() ; { let mut r = None; for x in v.iter() { if p(x) { r = Some(x.clone()); } } r } }
law!{ while_pop [A: Clone, F: Fn(A) -> A] (v: Vec<A>, f: F) -> Vec<A> ; { let mut r = Vec::new(); let mut s = v.clone(); while let Some(x) = s.pop() { r.push(f(x)); } r } ; { let mut r = Vec::new(); for x in v.into_iter().rev() { r.push(f(x)); } r } }
law!{ index_loop [A: Clone] (v: Vec<A>) -> Vec<A> ; { let mut r = Vec::new(); let mut i = 0; while i < v.len() { r.push(v[i].clone()); i += 1; } r } ; v.clone() }
law!{ drain_all [A: Clone] (v: Vec<A>) -> (Vec<A>, Vec<A>) ; { let mut s = v; let r = s.drain(..).collect(); (r, s) } ; (v, Vec::new()) }
law!{ drain_from [A: Clone] (v: Vec<A>, n: usize) -> (Vec<A>, Vec<A>) ; { let mut s = v; if n > s.len() { return (s, Vec::new()); } let r = s.drain(n..).collect(); (s, r) } ; { if n > v.len() { return (v, Vec::new()); } (v[..n].to_vec(), v[n..].to_vec()) } }
law!{ from_fn [A: Clone] (a: A) -> Vec<A> ; { let mut i = 0; std::iter::from_fn(|| if i < 3 { i += 1; Some(a.clone()) } else { None }).collect() } ; vec![a.clone(), a.clone(), a] }
law!{ min_by [A: Clone, F: Fn(&A, &A) -> std::cmp::Ordering] (v: Vec<A>, f: F) -> Option<A> ; v.iter().min_by(|x, y| f(x, y)).cloned() ; { let mut r: Option<&A> = None; for x in v.iter() { r = match r { None => Some(x), Some(m) => if f(m, x) == std::cmp::Ordering::Greater { Some(x) } else { Some(m) } }; } r.cloned() } }
law!{ st_map [A: Clone] (v: Vec<A>) -> Vec<(usize, A)> ; { let mut n = 0; v.iter().map(|x| { n += 1; (n, x.clone()) }).collect() } ; { let mut r = Vec::new(); let mut n = 0; for x in v.iter() { n += 1; r.push((n, x.clone())); } r } }
law!{ st_retain [A: Clone] (v: Vec<A>) -> Vec<A> ; { let mut r = v; let mut first = true; r.retain(|_| { let k = first; first = false; k }); r } ; { let mut r = Vec::new(); for x in v { if r.is_empty() { r.push(x); } } r } }
law!{ st_each [A: Clone] (v: Vec<A>) -> usize ; { let mut n = 0; v.iter().for_each(|_| n += 1); n } ; v.len() }
law!{ st_filter [A: Clone + PartialEq] (v: Vec<A>) -> Vec<A> ; { let mut last: Option<A> = None; v.iter().filter(|x| { let k = last.as_ref() != Some(*x); last = Some((*x).clone()); k }).cloned().collect() } ; { let mut r = Vec::new(); let mut last: Option<A> = None; for x in v.iter() { if last.as_ref() != Some(x) { r.push(x.clone()); } last = Some(x.clone()); } r } }
law!{ interleave [A: Clone, B: Clone, F: Fn(&A) -> B, P: Fn(&B) -> bool] (v: Vec<A>, f: F, p: P) -> Vec<B> ; v.iter().map(|x| f(x)).filter(|y| p(y)).collect() ; { let mut r = Vec::new(); for x in v.iter() { let y = f(x); if p(&y) { r.push(y); } } r } }
law!{ lazy_find [A: Clone, F: Fn(&A) -> bool, G: Fn(&A) -> bool] (v: Vec<A>, f: F, g: G) -> bool ; v.iter().filter(|x| f(x)).any(|x| g(x)) ; { for x in v.iter() { if f(x) && g(x) { return true; } } false } }
law!{ lazy_unused [A: Clone, F: Fn(&A) -> A] (v: Vec<A>, f: F) -> usize ; { let _i = v.iter().map(|x| f(x)); 0 } ; 0 }
law!{ chain_rev [A: Clone] (v: Vec<A>, w: Vec<A>) -> Vec<A> ; v.iter().chain(w.iter()).rev().cloned().collect() ; { let mut r = Vec::new(); for x in w.iter().rev() { r.push(x.clone()); } for x in v.iter().rev() { r.push(x.clone()); } r } }
law!{ enum_rev [A: Clone] (v: Vec<A>) -> Vec<(usize, A)> ; v.iter().enumerate().rev().map(|(i, x)| (i, x.clone())).collect() ; { let mut r = Vec::new(); let mut i = v.len(); while i > 0 { i -= 1; r.push((i, v[i].clone())); } r } }
law!{ zip_skip [A: Clone] (v: Vec<A>) -> Vec<(A, A)> ; v.iter().zip(v.iter().skip(1)).map(|(x, y)| (x.clone(), y.clone())).collect() ; { let mut r = Vec::new(); if v.len() > 1 { for i in 0..v.len() - 1 { r.push((v[i].clone(), v[i + 1].clone())); } } r } }
law!{ res_collect [A: Clone, E: Clone] (v: Vec<Result<A, E>>) -> Result<Vec<A>, E> ; v.into_iter().collect() ; { let mut r = Vec::new(); for x in v { r.push(x?); } Ok(r) } }
law!{ opt_collect [A: Clone] (v: Vec<Option<A>>) -> Option<Vec<A>> ; v.into_iter().collect() ; { let mut r = Vec::new(); for x in v { r.push(x?); } Some(r) } }
law!{ res_partition [A: Clone, E: Clone] (v: Vec<Result<A, E>>) -> (usize, usize) ; { let (a, b): (Vec<_>, Vec<_>) = v.iter().partition(|x| x.is_ok()); (a.len(), b.len()) } ; { let mut a = 0; let mut b = 0; for x in v.iter() { if x.is_ok() { a += 1; } else { b += 1; } } (a, b) } }
law!{ try_fold [A: Clone, E, F: Fn(A, &A) -> Result<A, E>] (v: Vec<A>, a: A, f: F) -> Result<A, E> ; v.iter().try_fold(a, |s, x| f(s, x)) ; { let mut s = a; for x in v.iter() { s = f(s, x)?; } Ok(s) } }
law!{ extend_opt [A: Clone] (v: Vec<A>, m: Option<A>) -> Vec<A> ; { let mut r = v; r.extend(m); r } ; { let mut r = v; if let Some(x) = m { r.push(x); } r } }
law!{ from_opt [A: Clone] (m: Option<A>) -> Vec<A> ; m.into_iter().collect() ; match m { Some(x) => vec![x], None => vec![] } }
law!{ hm_insert [K: std::hash::Hash + Eq + Clone, A: Clone] (k: K, a: A, b: A) -> Option<A> ; { let mut m = std::collections::HashMap::new(); m.insert(k.clone(), a); m.insert(k.clone(), b.clone()); m.get(&k).cloned() } ; Some(b) }
law!{ hm_entry [K: std::hash::Hash + Eq + Clone, A: Clone] (m: std::collections::HashMap<K, A>, k: K, a: A) -> A ; { let mut m = m; m.entry(k).or_insert(a).clone() } ; match m.get(&k) { Some(x) => x.clone(), None => a } }
law!{ hm_or_else [K: std::hash::Hash + Eq + Clone, A: Clone, F: Fn() -> A] (m: std::collections::HashMap<K, A>, k: K, f: F) -> A ; { let mut m = m; m.entry(k).or_insert_with(|| f()).clone() } ; match m.get(&k) { Some(x) => x.clone(), None => f() } }
law!{ take_replace [A: Clone] (m: Option<A>, a: A) -> (Option<A>, Option<A>, Option<A>) ; { let mut n = m; let x = n.take(); let y = std::mem::replace(&mut n, Some(a)); (x, y, n) } ; (m, None, Some(a)) }
law!{ while_let [A: Clone, F: Fn(&A) -> Option<A>] (a: A, f: F) -> Option<A> ; { let x = f(&a)?; let y = f(&x)?; Some(y) } ; f(&a).and_then(|x| f(&x)) }
law!{ labelled [A: Clone + PartialEq] (v: Vec<A>, w: Vec<A>) -> bool ; v.iter().any(|x| w.iter().any(|y| x == y)) ; { let mut r = false; 'o: for x in v.iter() { for y in w.iter() { if x == y { r = true; break 'o; } } } r } }
law!{ mut_iter [A: Clone, F: Fn(&A) -> A] (v: Vec<A>, f: F) -> Vec<A> ; { let mut r = v; for x in r.iter_mut() { *x = f(x); } r } ; v.iter().map(|x| f(x)).collect() }
law!{ mut_index [A: Clone, F: Fn(&A) -> A] (v: Vec<A>, f: F) -> Vec<A> ; { let mut r = v; for i in 0..r.len() { r[i] = f(&r[i]); } r } ; v.iter().map(|x| f(x)).collect() }
law!{ swap_loop [A: Clone] (v: Vec<A>) -> Vec<A> ; { let mut r = v; let n = r.len(); for i in 0..n / 2 { r.swap(i, n - 1 - i); } r } ; v.into_iter().rev().collect() }
law!{ split_first [A: Clone] (v: Vec<A>) -> Option<(A, Vec<A>)> ; v.split_first().map(|(x, r)| (x.clone(), r.to_vec())) ; { if v.is_empty() { None } else { Some((v[0].clone(), v[1..].to_vec())) } } }
law!{ slice_pat [A: Clone] (v: Vec<A>) -> Vec<A> ; match v.as_slice() { [] => vec![], [x] => vec![x.clone()], [x, .., y] => vec![x.clone(), y.clone()] } ; { if v.is_empty() { vec![] } else if v.len() == 1 { v } else { vec![v[0].clone(), v[v.len() - 1].clone()] } } }
law!{ slice_rest [A: Clone] (v: Vec<A>) -> Vec<A> ; match v.as_slice() { [] => vec![], [_, r @ ..] => r.to_vec() } ; v.into_iter().skip(1).collect() }
law!{ fold_push [A: Clone, B: Clone, F: Fn(&A) -> B] (v: Vec<A>, f: F) -> Vec<B> ; v.iter().fold(Vec::new(), |mut r, x| { r.push(f(x)); r }) ; v.iter().map(|x| f(x)).collect() }
law!{ rev_fold [A: Clone] (v: Vec<A>) -> Vec<A> ; v.iter().rev().fold(Vec::new(), |mut r, x| { r.insert(0, x.clone()); r }) ; v }
law!{ flatten_vv [A: Clone] (v: Vec<Vec<A>>) -> Vec<A> ; v.iter().flatten().cloned().collect() ; v.concat() }
law!{ dyn_call [A: Clone] (fs: Vec<Box<dyn Fn(A) -> A>>, a: A) -> A ; fs.iter().fold(a, |x, f| f(x)) ; { let mut x = a; for f in &fs { x = f(x); } x } }
law!{ arc_try [A: Clone] (a: A) -> A ; match std::sync::Arc::try_unwrap(std::sync::Arc::new(a.clone())) { Ok(x) => x, Err(r) => (*r).clone() } ; a }
law!{ cow [A: Clone] (v: Vec<A>) -> Vec<A> ; std::borrow::Cow::Borrowed(&v[..]).into_owned() ; v }
law!{ cell [A: Clone] (a: A, b: A) -> (A, A) ; { let c = std::cell::RefCell::new(a); let x = c.replace(b); let y = c.into_inner(); (x, y) } ; (a, b) }
law!{ catch [A: Clone, F: Fn() -> A] (f: F, a: A) -> A ; std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f())).unwrap_or(a) ; match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f())) { Ok(x) => x, Err(_) => a } }
law!{ strs [] (a: String, b: &str) -> (String, usize) ; { let mut s = a; s.push_str(b); let n = s.len(); (s, n) } ; { let s = a + b; (s.clone(), s.len()) } }
law!{ fmt_cat [] (a: String, b: String) -> String ; format!("{}{}", a, b) ; a + &b }
law!{ assoc_sum [] (v: Vec<usize>) -> usize ; v.iter().sum() ; v.iter().fold(0, |a, x| a + x) }
law!{ u_cmp [A: Clone + Ord] (a: A, b: A) -> (A, A, bool) ; (a.clone().max(b.clone()), a.clone().min(b.clone()), a <= b) ; (if a > b { a.clone() } else { b.clone() }, if a > b { b.clone() } else { a.clone() }, !(b < a)) }
law!{ partial [A: Clone + PartialOrd] (a: A, b: A) -> bool ; a.partial_cmp(&b) == Some(std::cmp::Ordering::Less) ; a < b }
law!{ first_or [A: Clone] (v: Vec<A>, a: A) -> A ; v.first().cloned().unwrap_or(a.clone()) ; if v.is_empty() { a } else { v[0].clone() } }
law!{ take_n [A: Clone] (v: Vec<A>, n: usize) -> Vec<A> ; v.iter().take(n).cloned().collect() ; if n <= v.len() { v[..n].to_vec() } else { v } }
law!{ skip_n [A: Clone] (v: Vec<A>, n: usize) -> Vec<A> ; v.iter().skip(n).cloned().collect() ; if n <= v.len() { v[n..].to_vec() } else { vec![] } }
law!{ pos [A: Clone, P: Fn(&A) -> bool] (v: Vec<A>, p: P) -> Option<usize> ; v.iter().position(|x| p(x)) ; { let mut i = 0; for x in v.iter() { if p(x) { return Some(i); } i += 1; } None } }
law!{ recv [A: Clone, P: Fn(&A) -> bool] (v: Vec<A>, p: P) -> (Vec<A>, Vec<A>) ; v.iter().cloned().partition(|x| p(x)) ; { let mut a = Vec::new(); let mut b = Vec::new(); for x in v { if p(&x) { a.push(x) } else { b.push(x) } } (a, b) } }
pub struct Up<'a, A> { v: &'a [A], i: usize }
impl<'a, A> Iterator for Up<'a, A> { type Item = &'a A; fn next(&mut self) -> Option<&'a A> { if self.i < self.v.len() { let r = &self.v[self.i]; self.i += 1; Some(r) } else { None } } }
law!{ own_iter [A: Clone] (v: Vec<A>) -> Vec<A> ; { let mut r = Vec::new(); for x in (Up { v: &v, i: 0 }) { r.push(x.clone()); } r } ; v.clone() }
law!{ own_iter_collect [A: Clone] (v: Vec<A>) -> Vec<A> ; (Up { v: &v, i: 0 }).cloned().collect() ; v.clone() }
law!{ own_iter_map [A: Clone, F: Fn(&A) -> A] (v: Vec<A>, f: F) -> Vec<A> ; (Up { v: &v, i: 0 }).map(|x| f(x)).collect() ; v.iter().map(|x| f(x)).collect() }
law!{ manual_next [A: Clone, F: Fn(&A) -> A] (v: Vec<A>, f: F) -> Vec<A> ; { let mut r = Vec::new(); let mut it = v.iter(); while let Some(x) = it.next() { r.push(f(x)); } r } ; v.iter().map(|x| f(x)).collect() }
law!{ loop_next [A: Clone, F: Fn(&A) -> A] (v: Vec<A>, f: F) -> Vec<A> ; { let mut r = Vec::new(); let mut it = v.iter().map(|x| f(x)); loop { match it.next() { Some(x) => r.push(x), None => break } } r } ; v.iter().map(|x| f(x)).collect() }
law!{ next_pairs [A: Clone] (v: Vec<A>) -> Vec<A> ; { let mut r = Vec::new(); let mut it = v.iter(); while let (Some(a), Some(b)) = (it.next(), it.next()) { r.push(b.clone()); r.push(a.clone()); } r } ; { let mut r = Vec::new(); for c in v.chunks(2) { if c.len() == 2 { r.push(c[1].clone()); r.push(c[0].clone()); } } r } }
law!{ recursion [A: Clone, F: Fn(&A) -> A] (v: Vec<A>, f: F) -> Vec<A> ; { fn go<A, F: Fn(&A) -> A>(s: &[A], f: &F, r: &mut Vec<A>) { if let [x, t @ ..] = s { r.push(f(x)); go(t, f, r); } } let mut r = Vec::new(); go(&v, &f, &mut r); r } ; v.iter().map(|x| f(x)).collect() }
law!{ helper_gen [A: Clone, B, F: Fn(&A) -> B] (m: Option<A>, f: F) -> Option<B> ; { fn each<X, Y>(m: Option<X>, k: impl FnOnce(&X) -> Y) -> Option<Y> { let x = m?; Some(k(&x)) } each(m, |x| f(x)) } ; match m { Some(x) => Some(f(&x)), None => None } }
law!{ ret_closure [A: Clone, F: Fn(A) -> A + Clone] (a: A, f: F) -> A ; { fn twice<A, F: Fn(A) -> A>(f: F) -> impl Fn(A) -> A { move |x| f(f(x)) } twice(f)(a) } ; f(f(a)) }
law!{ boxed_closure [A: Clone + 'static, F: Fn(A) -> A + 'static] (a: A, f: F) -> A ; { let g: Box<dyn Fn(A) -> A> = Box::new(move |x| f(x)); let h: &dyn Fn(A) -> A = &*g; h(a) } ; f(a) }
law!{ let_else [A: Clone] (m: Option<A>, a: A) -> A ; { let Some(x) = m else { return a }; x } ; m.unwrap_or(a) }
law!{ guard [A: Clone, P: Fn(&A) -> bool] (m: Option<A>, p: P) -> bool ; match m { Some(ref x) if p(x) => true, Some(_) | None => false } ; m.as_ref().map_or(false, |x| p(x)) }
law!{ matches_ [A: Clone] (m: Result<A, u8>) -> bool ; matches!(m, Err(3..=5)) ; match m { Err(e) => e >= 3 && e <= 5, _ => false } }
law!{ array [A: Clone] (a: A, b: A) -> Vec<A> ; { let xs = [a.clone(), b.clone()]; xs.into_iter().collect() } ; vec![a, b] }
law!{ arr_iter [A: Clone] (a: A, b: A) -> Vec<A> ; [&a, &b].iter().map(|x| (*x).clone()).collect() ; vec![a, b] }
law!{ once_chain [A: Clone] (a: A, v: Vec<A>) -> Vec<A> ; std::iter::once(a.clone()).chain(v.iter().cloned()).collect() ; { let mut r = vec![a]; r.extend(v); r } }
law!{ swap_mem [A: Clone] (a: A, b: A) -> (A, A) ; { let (mut x, mut y) = (a, b); std::mem::swap(&mut x, &mut y); (x, y) } ; (b, a) }
law!{ take_mem [A: Clone] (v: Vec<A>) -> (Vec<A>, Vec<A>) ; { let mut x = v; let y = std::mem::take(&mut x); (x, y) } ; (Vec::new(), v) }
law!{ arms [A: Clone] (m: Option<A>, n: Option<A>) -> Vec<A> ; match (m, n) { (Some(x), Some(y)) => vec![x, y], (Some(x), _) | (_, Some(x)) => vec![x], _ => vec![] } ; { let mut r = Vec::new(); if let Some(x) = m { r.push(x); } if let Some(x) = n { r.push(x); } r } }
law!{ opt_iter_chain [A: Clone] (m: Option<A>, n: Option<A>) -> Vec<A> ; m.into_iter().chain(n).collect() ; { let mut r = Vec::new(); if let Some(x) = m { r.push(x); } if let Some(x) = n { r.push(x); } r } }
law!{ filter_flat [A: Clone] (v: Vec<Option<A>>) -> Vec<A> ; v.into_iter().flatten().collect() ; { let mut r = Vec::new(); for x in v { if let Some(y) = x { r.push(y); } } r } }
law!{ nested_fm [A: Clone, F: Fn(&A) -> Vec<A>, G: Fn(&A) -> Vec<A>] (v: Vec<A>, f: F, g: G) -> Vec<A> ; v.iter().flat_map(|x| f(x)).flat_map(|y| g(&y)).collect() ; { let mut r = Vec::new(); for x in v.iter() { for y in f(x) { for z in g(&y) { r.push(z); } } } r } }
law!{ ext_map [A: Clone, F: Fn(&A) -> A] (v: Vec<A>, w: Vec<A>, f: F) -> Vec<A> ; { let mut r = v; r.extend(w.iter().map(|x| f(x))); r } ; { let mut r = v; for x in w.iter() { r.push(f(x)); } r } }
law!{ push_all [A: Clone] (v: Vec<A>, w: Vec<A>) -> Vec<A> ; { let mut r = Vec::with_capacity(v.len() + w.len()); r.extend_from_slice(&v); r.extend_from_slice(&w); r } ; [v, w].concat() }
law!{ append [A: Clone] (v: Vec<A>, w: Vec<A>) -> (Vec<A>, Vec<A>) ; { let mut r = v; let mut s = w; r.append(&mut s); (r, s) } ; ({ let mut r = v; r.extend(w); r }, Vec::new()) }
law!{ ins_front [A: Clone] (v: Vec<A>, a: A) -> Vec<A> ; { let mut r = v; r.insert(0, a); r } ; { let mut r = vec![a]; r.extend(v); r } }
law!{ remove_at [A: Clone] (v: Vec<A>, i: usize) -> Vec<A> ; { let mut r = v; if i < r.len() { r.remove(i); } r } ; { let mut r = Vec::new(); for (j, x) in v.into_iter().enumerate() { if j != i { r.push(x); } } r } }
law!{ is_some_both [A: Clone] (m: Option<A>, n: Option<A>) -> bool ; m.is_some() & n.is_some() ; m.is_some() && n.is_some() }
law!{ xor_bool [] (a: bool, b: bool) -> bool ; a ^ b ; a != b }
law!{ cmp_chain [A: Ord + Clone, B: Ord + Clone] (a: (A, B), b: (A, B)) -> std::cmp::Ordering ; a.0.cmp(&b.0).then_with(|| a.1.cmp(&b.1)) ; a.cmp(&b) }
law!{ cmp_rev [A: Ord + Clone] (a: A, b: A) -> std::cmp::Ordering ; a.cmp(&b).reverse() ; b.cmp(&a) }
law!{ slice_eq [A: PartialEq + Clone] (v: Vec<A>, w: Vec<A>) -> bool ; v == w ; { if v.len() != w.len() { return false; } for (x, y) in v.iter().zip(w.iter()) { if x != y { return false; } } true } }
law!{ iter_eq [A: PartialEq + Clone] (v: Vec<A>, w: Vec<A>) -> bool ; v.iter().eq(w.iter()) ; v == w }
law!{ all_not_any [A: Clone, P: Fn(&A) -> bool] (v: Vec<A>, p: P) -> bool ; !v.iter().any(|x| !p(x)) ; v.iter().all(|x| p(x)) }
law!{ count_if [A: Clone, P: Fn(&A) -> bool] (v: Vec<A>, p: P) -> usize ; v.iter().filter(|x| p(x)).count() ; { let mut n = 0; for x in v.iter() { if p(x) { n += 1; } } n } }
law!{ shadow [A: Clone, F: Fn(A) -> A] (a: A, f: F) -> A ; { let a = f(a); let a = f(a); a } ; f(f(a)) }
law!{ unit_loop [A: Clone] (a: A) -> A ; { let mut n = 0; while n < 3 { n += 1; } let _ = n; a } ; a }
law!{ range_map [A: Clone, F: Fn(usize) -> A] (n: usize, f: F) -> Vec<A> ; (0..n).map(|i| f(i)).collect() ; { let mut r = Vec::new(); let mut i = 0; while i < n { r.push(f(i)); i += 1; } r } }
law!{ range_incl [A: Clone, F: Fn(usize) -> A] (n: usize, f: F) -> Vec<A> ; (0..=n).map(|i| f(i)).collect() ; { let mut r = Vec::new(); let mut i = 0; while i < n + 1 { r.push(f(i)); i += 1; } r } }
law!{ repeat_n [A: Clone] (a: A, n: usize) -> Vec<A> ; std::iter::repeat_n(a.clone(), n).collect() ; vec![a; n] }
law!{ repeat_take [A: Clone] (a: A, n: usize) -> Vec<A> ; std::iter::repeat(a.clone()).take(n).collect() ; vec![a; n] }
law!{ vecdeque [A: Clone] (v: Vec<A>) -> Vec<A> ; { let mut d = std::collections::VecDeque::new(); for x in v.iter() { d.push_front(x.clone()); } d.into_iter().collect() } ; v.into_iter().rev().collect() }
law!{ smallvec_mac [A: Clone] (a: A, b: A) -> SmallVec<[A; 8]> ; smallvec::smallvec![a.clone(), b.clone()] ; SmallVec::from_vec(vec![a, b]) }
law!{ as_ref_map [A: Clone, F: Fn(&A) -> A] (m: Result<A, A>, f: F) -> Result<A, A> ; m.as_ref().map(|x| f(x)).map_err(|e| e.clone()) ; match m { Ok(x) => Ok(f(&x)), Err(e) => Err(e) } }
law!{ question [A: Clone, E: Clone] (m: Result<A, E>, n: Result<A, E>) -> Result<(A, A), E> ; { let x = m?; let y = n?; Ok((x, y)) } ; match m { Err(e) => Err(e), Ok(x) => match n { Err(e) => Err(e), Ok(y) => Ok((x, y)) } } }
law!{ arc_clone [A: Clone] (a: A) -> (A, A) ; { let r = std::sync::Arc::new(a); let s = std::sync::Arc::clone(&r); ((*r).clone(), (*s).clone()) } ; (a.clone(), a) }
law!{ arc_make_mut [A: Clone] (v: Vec<A>, a: A) -> (Vec<A>, Vec<A>) ; { let r = std::sync::Arc::new(v); let mut s = r.clone(); std::sync::Arc::make_mut(&mut s).push(a); ((*r).clone(), (*s).clone()) } ; (v.clone(), { let mut w = v; w.push(a); w }) }
law!{ cells2 [A: Clone] (a: A, b: A) -> (A, A) ; { let c = std::cell::RefCell::new(a); let x = c.borrow().clone(); *c.borrow_mut() = b; let y = c.borrow().clone(); (x, y) } ; (a, b) }
law!{ abool [] (p: bool) -> (bool, bool, bool) ; { let c = std::sync::atomic::AtomicBool::new(p); let x = c.swap(true, std::sync::atomic::Ordering::SeqCst); let y = c.load(std::sync::atomic::Ordering::SeqCst); c.store(false, std::sync::atomic::Ordering::SeqCst); (x, y, c.load(std::sync::atomic::Ordering::SeqCst)) } ; (p, true, false) }
law!{ anum_local [] (a: usize) -> (usize, usize) ; { let c = std::sync::atomic::AtomicUsize::new(a); let x = c.fetch_add(1, std::sync::atomic::Ordering::SeqCst); let y = c.load(std::sync::atomic::Ordering::SeqCst); (x, y) } ; (a, a + 1) }
law!{ anum_unused [A: Clone] (a: A) -> A ; { let c = std::sync::atomic::AtomicUsize::new(0); c.fetch_add(1, std::sync::atomic::Ordering::SeqCst); a } ; a }
law!{ cell3 [] (a: u8, b: u8) -> (u8, u8) ; { let c = std::cell::Cell::new(a); let x = c.get(); c.set(b); let y = c.get(); (x, y) } ; (a, b) }
law!{ ptr_shortcut [A: Clone] (a: &A, b: &A) -> (A, A) ; if std::ptr::eq(a, b) { (a.clone(), a.clone()) } else { (a.clone(), b.clone()) } ; (a.clone(), b.clone()) }
law!{ arc_shortcut [A: Clone] (a: &std::sync::Arc<A>, b: &std::sync::Arc<A>) -> (A, A) ; if std::sync::Arc::ptr_eq(a, b) { let x: &A = &**a; (x.clone(), x.clone()) } else { ((**a).clone(), (**b).clone()) } ; ((**a).clone(), (**b).clone()) }
law!{ raw_eq [A: Clone] (a: &A, b: &A) -> (A, A) ; if (a as *const A) == (b as *const A) { (b.clone(), b.clone()) } else { (a.clone(), b.clone()) } ; (a.clone(), b.clone()) }
law!{ spill [A: Clone] (a: smallvec::SmallVec<[A; 4]>) -> Vec<A> ; if a.spilled() { a.into_vec() } else { a.iter().cloned().collect() } ; a.iter().cloned().collect::<Vec<A>>() }
law!{ fmt_pos [] (a: String, b: String) -> String ; format!("{0}-{1}-{0}", a, b) ; { let mut s = a.clone(); s.push('-'); s.push_str(&b); s.push('-'); s.push_str(&a); s } }
law!{ fmt_write [] (a: String, b: String) -> String ; { use std::fmt::Write; let mut s = a; write!(s, "x{}y", b).unwrap(); s } ; a + "x" + &b + "y" }
law!{ fmt_join [] (v: Vec<String>) -> String ; v.join(", ") ; { let mut s = String::new(); for (i, x) in v.iter().enumerate() { if i > 0 { s.push_str(", "); } s.push_str(x); } s } }
law!{ fmt_esc [] (a: String) -> String ; format!("{{{}}}", a) ; String::from("{") + &a + "}" }
pub struct Fm<T>(pub T);
impl<T: std::fmt::Debug> std::fmt::Debug for Fm<T> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.debug_tuple("Fm").field(&self.0).finish() } }
impl<T: std::fmt::Display> std::fmt::Display for Fm<T> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("<")?; self.0.fmt(f)?; f.write_str(">") } }
#[derive(Debug)] pub struct Fs<T> { pub a: T, pub bb: T }
vlaw!{ fmt_tuple [T: std::fmt::Debug] (a: T) -> String ; format!("{:?}", Fm(a)) ; format!("Fm({:?})", a) }
vlaw!{ fmt_disp [T: std::fmt::Display] (a: T) -> String ; format!("{}", Fm(&a)) ; format!("<{}>", a) }
vlaw!{ fmt_struct [T: std::fmt::Debug] (a: T, b: T) -> String ; format!("{:?}", Fs { a, bb: b }) ; format!("Fs {{ a: {:?}, bb: {:?} }}", a, b) }
vlaw!{ fmt_num [] (a: u32) -> String ; a.to_string() ; format!("{a}") }
law!{ chunks_exact2 [A: Clone] (v: Vec<A>) -> Vec<A> ; v.chunks_exact(2).flat_map(|c| c.iter().cloned()).collect() ; v[..v.len() - v.len() % 2].to_vec() }
law!{ rchunks2 [A: Clone] (v: Vec<A>) -> Vec<A> ; { let mut r = Vec::new(); for c in v.rchunks(2) { let mut d = c.to_vec(); d.extend(r); r = d; } r } ; v }
law!{ resize_with2 [A: Clone, F: Fn() -> A] (v: Vec<A>, n: usize, f: F) -> Vec<A> ; { let mut w = v.clone(); w.resize_with(n, || f()); w } ; { let mut w = v.clone(); w.truncate(n); while w.len() < n { w.push(f()); } w } }
law!{ retain_mut2 [A: Clone, F: Fn(&A) -> bool] (v: Vec<A>, f: F) -> Vec<A> ; { let mut w = v.clone(); w.retain_mut(|x| f(x)); w } ; v.iter().filter(|x| f(x)).cloned().collect() }
vlaw!{ rposition2 [A: Clone, F: Fn(&A) -> bool] (v: Vec<A>, f: F) -> Option<usize> ; v.iter().rposition(|x| f(x)) ; { let mut r = None; for (i, x) in v.iter().enumerate() { if f(x) { r = Some(i); } } r } }
law!{ clamp2 [] (a: usize) -> usize ; a.clamp(2, 5) ; if a < 2 { 2 } else if a > 5 { 5 } else { a } }
law!{ oget_or_insert [A: Clone, F: Fn() -> A] (m: Option<A>, f: F) -> A ; { let mut m = m; m.get_or_insert_with(|| f()).clone() } ; match m { Some(x) => x, None => f() } }
law!{ osome_and [A: Clone, F: Fn(A) -> bool] (m: Option<A>, f: F) -> bool ; m.is_some_and(|x| f(x)) ; match m { Some(x) => f(x), None => false } }
law!{ onone_or [A: Clone, F: Fn(A) -> bool] (m: Option<A>, f: F) -> bool ; m.is_none_or(|x| f(x)) ; match m { Some(x) => f(x), None => true } }
law!{ ozip [A, B] (m: Option<A>, n: Option<B>) -> Option<(A, B)> ; m.zip(n) ; match (m, n) { (Some(a), Some(b)) => Some((a, b)), _ => None } }
law!{ ounzip [A, B] (m: Option<(A, B)>) -> (Option<A>, Option<B>) ; m.unzip() ; match m { Some((a, b)) => (Some(a), Some(b)), None => (None, None) } }
law!{ oxor [A] (m: Option<A>, n: Option<A>) -> Option<A> ; m.xor(n) ; match (m, n) { (Some(a), None) => Some(a), (None, Some(b)) => Some(b), _ => None } }
law!{ otake_if [A: Clone, F: Fn(&A) -> bool] (m: Option<A>, f: F) -> (Option<A>, Option<A>) ; { let mut m = m; let t = m.take_if(|x| f(x)); (m, t) } ; match m { Some(a) => if f(&a) { (None, Some(a)) } else { (Some(a), None) }, None => (None, None) } }
law!{ otranspose [A, E] (m: Option<Result<A, E>>) -> Result<Option<A>, E> ; m.transpose() ; match m { Some(Ok(a)) => Ok(Some(a)), Some(Err(e)) => Err(e), None => Ok(None) } }
law!{ rtranspose [A, E] (m: Result<Option<A>, E>) -> Option<Result<A, E>> ; m.transpose() ; match m { Ok(Some(a)) => Some(Ok(a)), Ok(None) => None, Err(e) => Some(Err(e)) } }
law!{ rmap_or_else [A, E, B, F: Fn(A) -> B, G: Fn(E) -> B] (m: Result<A, E>, f: F, g: G) -> B ; m.map_or_else(|e| g(e), |a| f(a)) ; match m { Ok(a) => f(a), Err(e) => g(e) } }
law!{ rok_and [A, E, F: Fn(A) -> bool] (m: Result<A, E>, f: F) -> bool ; m.is_ok_and(|a| f(a)) ; match m { Ok(a) => f(a), Err(_) => false } }
law!{ rinspect [A, E, F: Fn(&A)] (m: Result<A, E>, f: F) -> Result<A, E> ; m.inspect(|a| f(a)) ; match m { Ok(a) => { f(&a); Ok(a) }, Err(e) => Err(e) } }
law!{ riter [A: Clone, E] (m: Result<A, E>) -> Vec<A> ; m.iter().cloned().collect() ; match m { Ok(a) => vec![a], Err(_) => vec![] } }
vlaw!{ product [] (a: usize, b: usize) -> usize ; [a, b].iter().product::<usize>() ; a * b }
law!{ bthen [A, F: Fn() -> A] (p: bool, f: F) -> Option<A> ; p.then(|| f()) ; if p { Some(f()) } else { None } }
law!{ bthen_some [A] (p: bool, a: A) -> Option<A> ; p.then_some(a) ; if p { Some(a) } else { None } }
law!{ ord_then [A: Ord] (a: A, b: A, c: A) -> std::cmp::Ordering ; a.cmp(&b).then_with(|| b.cmp(&c)).reverse() ; match a.cmp(&b) { std::cmp::Ordering::Equal => match b.cmp(&c) { std::cmp::Ordering::Equal => std::cmp::Ordering::Equal, std::cmp::Ordering::Less => std::cmp::Ordering::Greater, std::cmp::Ordering::Greater => std::cmp::Ordering::Less }, std::cmp::Ordering::Less => std::cmp::Ordering::Greater, std::cmp::Ordering::Greater => std::cmp::Ordering::Less } }
law!{ split_first_m [A: Clone] (v: Vec<A>, a: A) -> Vec<A> ; { let mut w = v.clone(); if let Some((x, _)) = w.split_first_mut() { *x = a.clone(); } w } ; { let mut w = v.clone(); if !w.is_empty() { w[0] = a.clone(); } w } }
law!{ clone_from_sl [A: Clone] (v: Vec<A>, w: Vec<A>) -> Vec<A> ; { let mut u = v.clone(); if u.len() == w.len() { u.clone_from_slice(&w); } u } ; if v.len() == w.len() { w } else { v } }
law!{ fill_with2 [A: Clone, F: Fn() -> A] (v: Vec<A>, f: F) -> Vec<A> ; { let mut u = v.clone(); u.fill_with(|| f()); u } ; v.iter().map(|_| f()).collect() }
law!{ pop_if2 [A: Clone, F: Fn(&A) -> bool] (v: Vec<A>, f: F) -> Vec<A> ; { let mut u = v.clone(); u.pop_if(|x| f(x)); u } ; { let mut u = v.clone(); if let Some(x) = v.last() { if f(x) { u.pop(); } } u } }
law!{ dedup_key2 [A: Clone, F: Fn(&A) -> u8] (a: A, b: A, f: F) -> Vec<A> ; { let mut u = vec![a.clone(), b.clone()]; u.dedup_by_key(|x| f(x)); u } ; if f(&b) == f(&a) { vec![a] } else { vec![a, b] } }
law!{ successors2 [] (n: usize) -> Vec<usize> ; std::iter::successors(Some(0usize), |x| Some(x + 1)).take(n).collect() ; (0..n).collect() }
law!{ arr_map [A: Clone, F: Fn(A) -> A] (a: A, b: A, f: F) -> Vec<A> ; [a.clone(), b.clone()].map(|x| f(x)).to_vec() ; { let x = f(a); let y = f(b); vec![x, y] } }
law!{ arr_from_fn [A: Clone, F: Fn(usize) -> A] (f: F) -> Vec<A> ; std::array::from_fn::<A, 2, _>(|i| f(i)).to_vec() ; { let x = f(0); let y = f(1); vec![x, y] } }
law!{ arc_uoc [A: Clone] (a: A) -> A ; std::sync::Arc::unwrap_or_clone(std::sync::Arc::new(a.clone())) ; a }
law!{ nums_c [] (a: usize, b: usize) -> (Option<usize>, usize, usize) ; (a.checked_sub(b), a.saturating_sub(b), a.min(b)) ; (if a >= b { Some(a - b) } else { None }, if a > b { a - b } else { 0 }, if a < b { a } else { b }) }
vlaw!{ nums_a [] (a: usize, b: usize) -> Option<usize> ; a.checked_add(b) ; Some(a + b) }
law!{ nums_d [] (a: usize) -> (usize, bool) ; (a.div_ceil(4), a.is_multiple_of(4)) ; ((a + 3) / 4, a % 4 == 0) }
law!{ str_ins [] (a: String, b: String) -> String ; { let mut s = a.clone(); s.insert_str(0, &b); s } ; b.clone() + &a }
law!{ str_own [] (a: String) -> (String, String, String) ; { let s: &str = &a; (s.to_owned(), s.to_string(), s.into()) } ; (a.clone(), a.clone(), a) }
law!{ str_collect [] (v: Vec<String>) -> String ; v.iter().map(|s| s.as_str()).collect::<String>() ; { let mut s = String::new(); for x in v.iter() { s.push_str(x); } s } }
law!{ str_extend [] (v: Vec<String>, a: String) -> String ; { let mut s = a.clone(); s.extend(v.iter().map(|s| s.as_str())); s } ; { let mut s = a; for x in v.iter() { s.push_str(x); } s } }
law!{ once_with2 [A: Clone, F: Fn() -> A] (f: F) -> Vec<A> ; std::iter::once_with(|| f()).collect() ; vec![f()] }
law!{ vfrom_iter [A: Clone] (v: Vec<A>) -> Vec<A> ; Vec::from_iter(v.iter().cloned()) ; v }
law!{ boxslice [A: Clone] (v: Vec<A>) -> Vec<A> ; v.clone().into_boxed_slice().into_vec() ; v }
law!{ hm_or_default [] (k: String, v: String) -> Option<String> ; { let mut m = std::collections::HashMap::new(); m.entry(k.clone()).or_insert_with(String::new).push_str(&v); m.get(&k).cloned() } ; Some(v) }
law!{ lazy [A: Clone, F: Fn() -> A] (f: F) -> A ; { let l = std::cell::LazyCell::new(|| f()); (*l).clone() } ; f() }
law!{ once_cell [A: Clone, F: Fn() -> A] (f: F) -> (A, A) ; { let l = std::cell::OnceCell::new(); let a = l.get_or_init(|| f()).clone(); let b = l.get_or_init(|| f()).clone(); (a, b) } ; { let a = f(); (a.clone(), a) } }
law!{ strip_pre [A: Clone] (v: Vec<A>, n: usize) -> Option<Vec<A>> ; v.split_at_checked(n).map(|p| p.1.to_vec()) ; if n <= v.len() { Some(v[n..].to_vec()) } else { None } }
law!{ sl_concat [A: Clone] (v: Vec<A>, w: Vec<A>) -> Vec<A> ; [&v[..], &w[..]].concat() ; { let mut r = v.clone(); r.extend(w); r } }
law!{ it_zip [A: Clone] (v: Vec<A>, w: Vec<A>) -> Vec<(A, A)> ; std::iter::zip(v.iter(), w.iter()).map(|(a, b)| (a.clone(), b.clone())).collect() ; v.into_iter().zip(w).collect() }
vlaw!{ is_sorted_by2 [A: Clone, F: Fn(&A, &A) -> bool] (v: Vec<A>, f: F) -> bool ; v.is_sorted_by(|a, b| f(a, b)) ; { let mut r = true; let mut i = 1; while i < v.len() { if !f(&v[i - 1], &v[i]) { r = false; } i += 1; } r } }
law!{ cf_break [A] (m: Result<A, A>) -> Option<A> ; { let c = match m { Ok(a) => std::ops::ControlFlow::Continue(a), Err(e) => std::ops::ControlFlow::Break(e) }; c.break_value() } ; m.err() }
law!{ collect_opt [A: Clone] (v: Vec<Option<A>>) -> Option<Vec<A>> ; v.iter().cloned().collect() ; { let mut r = Vec::new(); for x in v.iter() { match x { Some(y) => r.push(y.clone()), None => return None } } Some(r) } }
law!{ mem3 [A: Clone] (a: A, b: A) -> (A, A) ; { let mut x = a; let mut y = b; std::mem::swap(&mut x, &mut y); let z = std::mem::replace(&mut x, y); (z, x) } ; (b.clone(), a.clone()) }
law!{ try_fold_r [A: Clone, E, F: Fn(A, &A) -> Result<A, E>] (v: Vec<A>, a: A, f: F) -> Result<A, E> ; v.iter().try_fold(a.clone(), |s, x| f(s, x)) ; { let mut s = a; for x in v.iter() { s = f(s, x)?; } Ok(s) } }
law!{ labeled [A: Clone, F: Fn(&A, &A) -> bool] (v: Vec<A>, f: F) -> Option<A> ; { let mut r = None; 'o: for x in v.iter() { for y in v.iter() { if f(x, y) { r = Some(x.clone()); break 'o; } } } r } ; { for x in v.iter() { for y in v.iter() { if f(x, y) { return Some(x.clone()); } } } None } }
law!{ bool_reuse [A: Clone, F: Fn(&A) -> bool] (a: A, f: F) -> (bool, A) ; { let p = f(&a); if p { (p, a.clone()) } else { (p, a.clone()) } } ; (f(&a), a) }
law!{ bool_reuse2 [A: Clone, F: Fn(&A) -> bool] (a: A, f: F) -> Option<bool> ; { let p = f(&a); if p { Some(p) } else { None } } ; if f(&a) { Some(true) } else { None } }
law!{ bool_and [] (p: bool, q: bool) -> bool ; p & q ; p && q }
law!{ bool_or [] (p: bool, q: bool) -> bool ; p | q ; p || q }
law!{ bool_acc [A: Clone, F: Fn(&A) -> bool] (v: Vec<A>, f: F) -> bool ; { let mut r = true; for x in v.iter() { r &= f(x); } r } ; { let mut r = true; for x in v.iter() { if !f(x) { r = false; } } r } }
law!{ wrong_bool [A: Clone, F: Fn(&A) -> bool] (a: A, b: A, f: F) -> bool ; { let p = f(&a); let q = f(&b); if p { q } else { p } } ; { let p = f(&a); let q = f(&b); if p { q } else { true } } }
law!{ seg_mut [A: Clone] (v: Vec<A>, a: A) -> Vec<A> ; { let mut w = v.clone(); if w.len() > 2 { let (l, r) = w.split_at_mut(1); l[0] = r[0].clone(); r[1] = a.clone(); } w } ; { let mut w = v.clone(); if w.len() > 2 { w[0] = v[1].clone(); w[2] = a.clone(); } w } }
law!{ seg_rev [A: Clone] (v: Vec<A>) -> Vec<A> ; { let mut w = v.clone(); if w.len() > 1 { w[1..].reverse(); } w } ; if v.len() > 1 { let mut r = vec![v[0].clone()]; r.extend(v[1..].iter().rev().cloned()); r } else { v } }
law!{ seg_iter [A: Clone] (v: Vec<A>, a: A) -> Vec<A> ; { let mut w = v.clone(); if w.len() > 1 { for x in w[1..].iter_mut() { *x = a.clone(); } } w } ; if v.len() > 1 { let mut r = vec![v[0].clone()]; r.extend(v[1..].iter().map(|_| a.clone())); r } else { v } }
law!{ skip_mut [A: Clone] (v: Vec<A>, a: A) -> Vec<A> ; { let mut w = v.clone(); for x in w.iter_mut().skip(1) { *x = a.clone(); } w } ; if v.len() > 1 { let mut r = vec![v[0].clone()]; r.extend(v[1..].iter().map(|_| a.clone())); r } else { v } }
law!{ seg_copy [A: Clone] (v: Vec<A>, w: Vec<A>) -> Vec<A> ; { let mut r = v.clone(); let n = r.len(); r.extend(w.iter().cloned()); r[n..].clone_from_slice(&w); r } ; { let mut r = v; r.extend(w); r } }
