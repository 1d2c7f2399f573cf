//! Equality, order and hash of persistent vectors: by contents, whatever representation and history.
//@at .*mixed.*|.*trees.* : 2,1 1,1,2 0,2,1 2,0,1 1,2 3 : 0
//@also c24: (inline|tree|concat)::.*|rrb::(update|push_back|push_front|pop_back|pop_front|split_at)
use super::refs::*;
use std::cmp::Ordering;
use std::hash::{Hash, Hasher};
pub fn hs<A: Hash, H: Hasher>(a: &A, mut h: H) -> H { a.hash(&mut h); h }
pub fn hw<T: Hash, H: Hasher>(w: &Vec<T>, mut h: H) -> H { w.len().hash(&mut h); for x in w.iter() { x.hash(&mut h); } h }
pub fn c3<T>(a: Vec<T>, b: Vec<T>, c: Vec<T>) -> Vec<T> { cat(cat(a, b), c) }
law!{ eq_any_any [T: Clone + PartialEq] (a: Vec<T>, g: u32, b: Vec<T>, g2: u32) -> bool ; pgen(a.clone(), g) == pgen(b.clone(), g2) ; a.clone() == b.clone() }
law!{ ne_any_any [T: Clone + PartialEq] (a: Vec<T>, g: u32, b: Vec<T>, g2: u32) -> bool ; pgen(a.clone(), g) != pgen(b.clone(), g2) ; a.clone() != b.clone() }
law!{ cmp_any_any [T: Clone + Ord] (a: Vec<T>, g: u32, b: Vec<T>, g2: u32) -> Ordering ; Ord::cmp(&pgen(a.clone(), g), &pgen(b.clone(), g2)) ; Ord::cmp(&a.clone(), &b.clone()) }
law!{ partial_cmp_any_any [T: Clone + PartialOrd] (a: Vec<T>, g: u32, b: Vec<T>, g2: u32) -> Option<Ordering> ; PartialOrd::partial_cmp(&pgen(a.clone(), g), &pgen(b.clone(), g2)) ; PartialOrd::partial_cmp(&a.clone(), &b.clone()) }
law!{ le_any_any [T: Clone + PartialOrd] (a: Vec<T>, g: u32, b: Vec<T>, g2: u32) -> bool ; PartialOrd::le(&pgen(a.clone(), g), &pgen(b.clone(), g2)) ; PartialOrd::le(&a.clone(), &b.clone()) }
law!{ gt_any_any [T: Clone + PartialOrd] (a: Vec<T>, g: u32, b: Vec<T>, g2: u32) -> bool ; PartialOrd::gt(&pgen(a.clone(), g), &pgen(b.clone(), g2)) ; PartialOrd::gt(&a.clone(), &b.clone()) }
law!{ lt_any_any [T: Clone + PartialOrd] (a: Vec<T>, g: u32, b: Vec<T>, g2: u32) -> bool ; pgen(a.clone(), g) < pgen(b.clone(), g2) ; a.clone() < b.clone() }
law!{ ge_any_any [T: Clone + PartialOrd] (a: Vec<T>, g: u32, b: Vec<T>, g2: u32) -> bool ; pgen(a.clone(), g) >= pgen(b.clone(), g2) ; a.clone() >= b.clone() }
law!{ eq_inline_inline [T: Clone + PartialEq] (a: Vec<T>, g: u32, b: Vec<T>, g2: u32) -> bool ; ginl(a.clone(), g) == ginl(b.clone(), g2) ; a.clone() == b.clone() }
law!{ ne_inline_inline [T: Clone + PartialEq] (a: Vec<T>, g: u32, b: Vec<T>, g2: u32) -> bool ; ginl(a.clone(), g) != ginl(b.clone(), g2) ; a.clone() != b.clone() }
law!{ cmp_inline_inline [T: Clone + Ord] (a: Vec<T>, g: u32, b: Vec<T>, g2: u32) -> Ordering ; Ord::cmp(&ginl(a.clone(), g), &ginl(b.clone(), g2)) ; Ord::cmp(&a.clone(), &b.clone()) }
law!{ partial_cmp_inline_inline [T: Clone + PartialOrd] (a: Vec<T>, g: u32, b: Vec<T>, g2: u32) -> Option<Ordering> ; PartialOrd::partial_cmp(&ginl(a.clone(), g), &ginl(b.clone(), g2)) ; PartialOrd::partial_cmp(&a.clone(), &b.clone()) }
law!{ lt_inline_inline [T: Clone + PartialOrd] (a: Vec<T>, g: u32, b: Vec<T>, g2: u32) -> bool ; ginl(a.clone(), g) < ginl(b.clone(), g2) ; a.clone() < b.clone() }
law!{ ge_inline_inline [T: Clone + PartialOrd] (a: Vec<T>, g: u32, b: Vec<T>, g2: u32) -> bool ; ginl(a.clone(), g) >= ginl(b.clone(), g2) ; a.clone() >= b.clone() }
law!{ eq_trees [T: Clone + PartialEq] (h: Vec<T>, r: Vec<T>, t: Vec<T>, k: usize, g: u32, h2: Vec<T>, r2: Vec<T>, t2: Vec<T>, k2: usize, g2: u32) -> bool ; gtree(tr(h.clone(), nabs(r.clone()), t.clone(), k), g) == gtree(tr(h2.clone(), nabs(r2.clone()), t2.clone(), k2), g2) ; c3(h.clone(), r.clone(), t.clone()) == c3(h2.clone(), r2.clone(), t2.clone()) }
law!{ ne_trees [T: Clone + PartialEq] (h: Vec<T>, r: Vec<T>, t: Vec<T>, k: usize, g: u32, h2: Vec<T>, r2: Vec<T>, t2: Vec<T>, k2: usize, g2: u32) -> bool ; gtree(tr(h.clone(), nabs(r.clone()), t.clone(), k), g) != gtree(tr(h2.clone(), nabs(r2.clone()), t2.clone(), k2), g2) ; c3(h.clone(), r.clone(), t.clone()) != c3(h2.clone(), r2.clone(), t2.clone()) }
law!{ cmp_trees [T: Clone + Ord] (h: Vec<T>, r: Vec<T>, t: Vec<T>, k: usize, g: u32, h2: Vec<T>, r2: Vec<T>, t2: Vec<T>, k2: usize, g2: u32) -> Ordering ; Ord::cmp(&gtree(tr(h.clone(), nabs(r.clone()), t.clone(), k), g), &gtree(tr(h2.clone(), nabs(r2.clone()), t2.clone(), k2), g2)) ; Ord::cmp(&c3(h.clone(), r.clone(), t.clone()), &c3(h2.clone(), r2.clone(), t2.clone())) }
law!{ partial_cmp_trees [T: Clone + PartialOrd] (h: Vec<T>, r: Vec<T>, t: Vec<T>, k: usize, g: u32, h2: Vec<T>, r2: Vec<T>, t2: Vec<T>, k2: usize, g2: u32) -> Option<Ordering> ; PartialOrd::partial_cmp(&gtree(tr(h.clone(), nabs(r.clone()), t.clone(), k), g), &gtree(tr(h2.clone(), nabs(r2.clone()), t2.clone(), k2), g2)) ; PartialOrd::partial_cmp(&c3(h.clone(), r.clone(), t.clone()), &c3(h2.clone(), r2.clone(), t2.clone())) }
law!{ lt_trees [T: Clone + PartialOrd] (h: Vec<T>, r: Vec<T>, t: Vec<T>, k: usize, g: u32, h2: Vec<T>, r2: Vec<T>, t2: Vec<T>, k2: usize, g2: u32) -> bool ; gtree(tr(h.clone(), nabs(r.clone()), t.clone(), k), g) < gtree(tr(h2.clone(), nabs(r2.clone()), t2.clone(), k2), g2) ; c3(h.clone(), r.clone(), t.clone()) < c3(h2.clone(), r2.clone(), t2.clone()) }
law!{ ge_trees [T: Clone + PartialOrd] (h: Vec<T>, r: Vec<T>, t: Vec<T>, k: usize, g: u32, h2: Vec<T>, r2: Vec<T>, t2: Vec<T>, k2: usize, g2: u32) -> bool ; gtree(tr(h.clone(), nabs(r.clone()), t.clone(), k), g) >= gtree(tr(h2.clone(), nabs(r2.clone()), t2.clone(), k2), g2) ; c3(h.clone(), r.clone(), t.clone()) >= c3(h2.clone(), r2.clone(), t2.clone()) }
law!{ eq_mixed_inline_tree [T: Clone + PartialEq] (a: Vec<T>, g: u32, h2: Vec<T>, r2: Vec<T>, t2: Vec<T>, k2: usize, g2: u32) -> bool ; ginl(a.clone(), g) == gtree(tr(h2.clone(), nabs(r2.clone()), t2.clone(), k2), g2) ; a.clone() == c3(h2.clone(), r2.clone(), t2.clone()) }
law!{ ne_mixed_inline_tree [T: Clone + PartialEq] (a: Vec<T>, g: u32, h2: Vec<T>, r2: Vec<T>, t2: Vec<T>, k2: usize, g2: u32) -> bool ; ginl(a.clone(), g) != gtree(tr(h2.clone(), nabs(r2.clone()), t2.clone(), k2), g2) ; a.clone() != c3(h2.clone(), r2.clone(), t2.clone()) }
law!{ cmp_mixed_inline_tree [T: Clone + Ord] (a: Vec<T>, g: u32, h2: Vec<T>, r2: Vec<T>, t2: Vec<T>, k2: usize, g2: u32) -> Ordering ; Ord::cmp(&ginl(a.clone(), g), &gtree(tr(h2.clone(), nabs(r2.clone()), t2.clone(), k2), g2)) ; Ord::cmp(&a.clone(), &c3(h2.clone(), r2.clone(), t2.clone())) }
law!{ partial_cmp_mixed_inline_tree [T: Clone + PartialOrd] (a: Vec<T>, g: u32, h2: Vec<T>, r2: Vec<T>, t2: Vec<T>, k2: usize, g2: u32) -> Option<Ordering> ; PartialOrd::partial_cmp(&ginl(a.clone(), g), &gtree(tr(h2.clone(), nabs(r2.clone()), t2.clone(), k2), g2)) ; PartialOrd::partial_cmp(&a.clone(), &c3(h2.clone(), r2.clone(), t2.clone())) }
law!{ lt_mixed_inline_tree [T: Clone + PartialOrd] (a: Vec<T>, g: u32, h2: Vec<T>, r2: Vec<T>, t2: Vec<T>, k2: usize, g2: u32) -> bool ; ginl(a.clone(), g) < gtree(tr(h2.clone(), nabs(r2.clone()), t2.clone(), k2), g2) ; a.clone() < c3(h2.clone(), r2.clone(), t2.clone()) }
law!{ ge_mixed_inline_tree [T: Clone + PartialOrd] (a: Vec<T>, g: u32, h2: Vec<T>, r2: Vec<T>, t2: Vec<T>, k2: usize, g2: u32) -> bool ; ginl(a.clone(), g) >= gtree(tr(h2.clone(), nabs(r2.clone()), t2.clone(), k2), g2) ; a.clone() >= c3(h2.clone(), r2.clone(), t2.clone()) }
law!{ eq_mixed_tree_inline [T: Clone + PartialEq] (h: Vec<T>, r: Vec<T>, t: Vec<T>, k: usize, g: u32, b: Vec<T>, g2: u32) -> bool ; gtree(tr(h.clone(), nabs(r.clone()), t.clone(), k), g) == ginl(b.clone(), g2) ; c3(h.clone(), r.clone(), t.clone()) == b.clone() }
law!{ ne_mixed_tree_inline [T: Clone + PartialEq] (h: Vec<T>, r: Vec<T>, t: Vec<T>, k: usize, g: u32, b: Vec<T>, g2: u32) -> bool ; gtree(tr(h.clone(), nabs(r.clone()), t.clone(), k), g) != ginl(b.clone(), g2) ; c3(h.clone(), r.clone(), t.clone()) != b.clone() }
law!{ cmp_mixed_tree_inline [T: Clone + Ord] (h: Vec<T>, r: Vec<T>, t: Vec<T>, k: usize, g: u32, b: Vec<T>, g2: u32) -> Ordering ; Ord::cmp(&gtree(tr(h.clone(), nabs(r.clone()), t.clone(), k), g), &ginl(b.clone(), g2)) ; Ord::cmp(&c3(h.clone(), r.clone(), t.clone()), &b.clone()) }
law!{ partial_cmp_mixed_tree_inline [T: Clone + PartialOrd] (h: Vec<T>, r: Vec<T>, t: Vec<T>, k: usize, g: u32, b: Vec<T>, g2: u32) -> Option<Ordering> ; PartialOrd::partial_cmp(&gtree(tr(h.clone(), nabs(r.clone()), t.clone(), k), g), &ginl(b.clone(), g2)) ; PartialOrd::partial_cmp(&c3(h.clone(), r.clone(), t.clone()), &b.clone()) }
law!{ lt_mixed_tree_inline [T: Clone + PartialOrd] (h: Vec<T>, r: Vec<T>, t: Vec<T>, k: usize, g: u32, b: Vec<T>, g2: u32) -> bool ; gtree(tr(h.clone(), nabs(r.clone()), t.clone(), k), g) < ginl(b.clone(), g2) ; c3(h.clone(), r.clone(), t.clone()) < b.clone() }
law!{ ge_mixed_tree_inline [T: Clone + PartialOrd] (h: Vec<T>, r: Vec<T>, t: Vec<T>, k: usize, g: u32, b: Vec<T>, g2: u32) -> bool ; gtree(tr(h.clone(), nabs(r.clone()), t.clone(), k), g) >= ginl(b.clone(), g2) ; c3(h.clone(), r.clone(), t.clone()) >= b.clone() }
law!{ eq_mixed_any_inline [T: Clone + PartialEq] (a: Vec<T>, g: u32, b: Vec<T>, g2: u32) -> bool ; pgen(a.clone(), g) == ginl(b.clone(), g2) ; a.clone() == b.clone() }
law!{ ne_mixed_any_inline [T: Clone + PartialEq] (a: Vec<T>, g: u32, b: Vec<T>, g2: u32) -> bool ; pgen(a.clone(), g) != ginl(b.clone(), g2) ; a.clone() != b.clone() }
law!{ cmp_mixed_any_inline [T: Clone + Ord] (a: Vec<T>, g: u32, b: Vec<T>, g2: u32) -> Ordering ; Ord::cmp(&pgen(a.clone(), g), &ginl(b.clone(), g2)) ; Ord::cmp(&a.clone(), &b.clone()) }
law!{ partial_cmp_mixed_any_inline [T: Clone + PartialOrd] (a: Vec<T>, g: u32, b: Vec<T>, g2: u32) -> Option<Ordering> ; PartialOrd::partial_cmp(&pgen(a.clone(), g), &ginl(b.clone(), g2)) ; PartialOrd::partial_cmp(&a.clone(), &b.clone()) }
law!{ lt_mixed_any_inline [T: Clone + PartialOrd] (a: Vec<T>, g: u32, b: Vec<T>, g2: u32) -> bool ; pgen(a.clone(), g) < ginl(b.clone(), g2) ; a.clone() < b.clone() }
law!{ ge_mixed_any_inline [T: Clone + PartialOrd] (a: Vec<T>, g: u32, b: Vec<T>, g2: u32) -> bool ; pgen(a.clone(), g) >= ginl(b.clone(), g2) ; a.clone() >= b.clone() }
law!{ eq_mixed_any_tree [T: Clone + PartialEq] (a: Vec<T>, g: u32, h2: Vec<T>, r2: Vec<T>, t2: Vec<T>, k2: usize, g2: u32) -> bool ; pgen(a.clone(), g) == gtree(tr(h2.clone(), nabs(r2.clone()), t2.clone(), k2), g2) ; a.clone() == c3(h2.clone(), r2.clone(), t2.clone()) }
law!{ ne_mixed_any_tree [T: Clone + PartialEq] (a: Vec<T>, g: u32, h2: Vec<T>, r2: Vec<T>, t2: Vec<T>, k2: usize, g2: u32) -> bool ; pgen(a.clone(), g) != gtree(tr(h2.clone(), nabs(r2.clone()), t2.clone(), k2), g2) ; a.clone() != c3(h2.clone(), r2.clone(), t2.clone()) }
law!{ cmp_mixed_any_tree [T: Clone + Ord] (a: Vec<T>, g: u32, h2: Vec<T>, r2: Vec<T>, t2: Vec<T>, k2: usize, g2: u32) -> Ordering ; Ord::cmp(&pgen(a.clone(), g), &gtree(tr(h2.clone(), nabs(r2.clone()), t2.clone(), k2), g2)) ; Ord::cmp(&a.clone(), &c3(h2.clone(), r2.clone(), t2.clone())) }
law!{ partial_cmp_mixed_any_tree [T: Clone + PartialOrd] (a: Vec<T>, g: u32, h2: Vec<T>, r2: Vec<T>, t2: Vec<T>, k2: usize, g2: u32) -> Option<Ordering> ; PartialOrd::partial_cmp(&pgen(a.clone(), g), &gtree(tr(h2.clone(), nabs(r2.clone()), t2.clone(), k2), g2)) ; PartialOrd::partial_cmp(&a.clone(), &c3(h2.clone(), r2.clone(), t2.clone())) }
law!{ lt_mixed_any_tree [T: Clone + PartialOrd] (a: Vec<T>, g: u32, h2: Vec<T>, r2: Vec<T>, t2: Vec<T>, k2: usize, g2: u32) -> bool ; pgen(a.clone(), g) < gtree(tr(h2.clone(), nabs(r2.clone()), t2.clone(), k2), g2) ; a.clone() < c3(h2.clone(), r2.clone(), t2.clone()) }
law!{ ge_mixed_any_tree [T: Clone + PartialOrd] (a: Vec<T>, g: u32, h2: Vec<T>, r2: Vec<T>, t2: Vec<T>, k2: usize, g2: u32) -> bool ; pgen(a.clone(), g) >= gtree(tr(h2.clone(), nabs(r2.clone()), t2.clone(), k2), g2) ; a.clone() >= c3(h2.clone(), r2.clone(), t2.clone()) }
law!{ same_eq [T: Clone + PartialEq] (h: Vec<T>, r: Vec<T>, t: Vec<T>, k: usize, g: u32, g2: u32) -> bool ; ginl(c3(h.clone(), r.clone(), t.clone()), g2) == gtree(tr(h.clone(), nabs(r.clone()), t.clone(), k), g) ; { let _ = c3(h.clone(), r.clone(), t.clone()) == c3(h.clone(), r.clone(), t.clone()); true } }
law!{ same_eq_rev [T: Clone + PartialEq] (h: Vec<T>, r: Vec<T>, t: Vec<T>, k: usize, g: u32, g2: u32) -> bool ; gtree(tr(h.clone(), nabs(r.clone()), t.clone(), k), g) == ginl(c3(h.clone(), r.clone(), t.clone()), g2) ; { let _ = c3(h.clone(), r.clone(), t.clone()) == c3(h.clone(), r.clone(), t.clone()); true } }
law!{ same_cmp [T: Clone + Ord] (h: Vec<T>, r: Vec<T>, t: Vec<T>, k: usize, g: u32, g2: u32) -> Ordering ; Ord::cmp(&ginl(c3(h.clone(), r.clone(), t.clone()), g2), &gtree(tr(h.clone(), nabs(r.clone()), t.clone(), k), g)) ; Ordering::Equal }
law!{ hash_same [T: Clone + Hash, H: Hasher + Clone] (h: Vec<T>, r: Vec<T>, t: Vec<T>, k: usize, g: u32, g2: u32, s: H) -> H ; hs(&ginl(c3(h.clone(), r.clone(), t.clone()), g2), s.clone()) ; hs(&gtree(tr(h.clone(), nabs(r.clone()), t.clone(), k), g), s.clone()) }
law!{ hash_any [T: Clone + Hash, H: Hasher + Clone] (a: Vec<T>, g: u32, s: H) -> H ; hs(&pgen(a.clone(), g), s.clone()) ; hs(&pgen(a.clone(), 0), s.clone()) }
law!{ eq_history_any [T: Clone + PartialEq] (a: Vec<T>, g: u32, g2: u32) -> bool ; pgen(a.clone(), g) == pgen(a.clone(), g2) ; { let _ = a.clone() == a.clone(); true } }
law!{ cmp_history_any [T: Clone + Ord] (a: Vec<T>, g: u32, g2: u32) -> Ordering ; Ord::cmp(&pgen(a.clone(), g), &pgen(a.clone(), g2)) ; Ordering::Equal }
law!{ self_eq_any [T: Clone + PartialEq] (a: Vec<T>, g: u32) -> bool ; { let v = pgen(a.clone(), g); v == v.clone() } ; true }
law!{ hash_inline [T: Clone + Hash, H: Hasher + Clone] (a: Vec<T>, g: u32, s: H) -> H ; hs(&ginl(a.clone(), g), s.clone()) ; hs(&pgen(a.clone(), 0), s.clone()) }
law!{ eq_history_inline [T: Clone + PartialEq] (a: Vec<T>, g: u32, g2: u32) -> bool ; ginl(a.clone(), g) == pgen(a.clone(), g2) ; { let _ = a.clone() == a.clone(); true } }
law!{ cmp_history_inline [T: Clone + Ord] (a: Vec<T>, g: u32, g2: u32) -> Ordering ; Ord::cmp(&ginl(a.clone(), g), &pgen(a.clone(), g2)) ; Ordering::Equal }
law!{ self_eq_inline [T: Clone + PartialEq] (a: Vec<T>, g: u32) -> bool ; { let v = ginl(a.clone(), g); v == v.clone() } ; true }
law!{ hash_tree [T: Clone + Hash, H: Hasher + Clone] (h: Vec<T>, r: Vec<T>, t: Vec<T>, k: usize, g: u32, s: H) -> H ; hs(&gtree(tr(h.clone(), nabs(r.clone()), t.clone(), k), g), s.clone()) ; hs(&pgen(c3(h.clone(), r.clone(), t.clone()), 0), s.clone()) }
law!{ eq_history_tree [T: Clone + PartialEq] (h: Vec<T>, r: Vec<T>, t: Vec<T>, k: usize, g: u32, g2: u32) -> bool ; gtree(tr(h.clone(), nabs(r.clone()), t.clone(), k), g) == pgen(c3(h.clone(), r.clone(), t.clone()), g2) ; { let _ = c3(h.clone(), r.clone(), t.clone()) == c3(h.clone(), r.clone(), t.clone()); true } }
law!{ cmp_history_tree [T: Clone + Ord] (h: Vec<T>, r: Vec<T>, t: Vec<T>, k: usize, g: u32, g2: u32) -> Ordering ; Ord::cmp(&gtree(tr(h.clone(), nabs(r.clone()), t.clone(), k), g), &pgen(c3(h.clone(), r.clone(), t.clone()), g2)) ; Ordering::Equal }
law!{ self_eq_tree [T: Clone + PartialEq] (h: Vec<T>, r: Vec<T>, t: Vec<T>, k: usize, g: u32) -> bool ; { let v = gtree(tr(h.clone(), nabs(r.clone()), t.clone(), k), g); v == v.clone() } ; true }
// elements may be incomparable
law!{ partial_cmp_any_any__partial [T: Clone + PartialOrd] (a: Vec<T>, g: u32, b: Vec<T>, g2: u32) -> Option<Ordering> ; PartialOrd::partial_cmp(&pgen(a.clone(), g), &pgen(b.clone(), g2)) ; PartialOrd::partial_cmp(&a.clone(), &b.clone()) }
law!{ lt_any_any__partial [T: Clone + PartialOrd] (a: Vec<T>, g: u32, b: Vec<T>, g2: u32) -> bool ; pgen(a.clone(), g) < pgen(b.clone(), g2) ; a.clone() < b.clone() }
law!{ ge_any_any__partial [T: Clone + PartialOrd] (a: Vec<T>, g: u32, b: Vec<T>, g2: u32) -> bool ; pgen(a.clone(), g) >= pgen(b.clone(), g2) ; a.clone() >= b.clone() }
law!{ partial_cmp_inline_inline__partial [T: Clone + PartialOrd] (a: Vec<T>, g: u32, b: Vec<T>, g2: u32) -> Option<Ordering> ; PartialOrd::partial_cmp(&ginl(a.clone(), g), &ginl(b.clone(), g2)) ; PartialOrd::partial_cmp(&a.clone(), &b.clone()) }
law!{ lt_inline_inline__partial [T: Clone + PartialOrd] (a: Vec<T>, g: u32, b: Vec<T>, g2: u32) -> bool ; ginl(a.clone(), g) < ginl(b.clone(), g2) ; a.clone() < b.clone() }
law!{ ge_inline_inline__partial [T: Clone + PartialOrd] (a: Vec<T>, g: u32, b: Vec<T>, g2: u32) -> bool ; ginl(a.clone(), g) >= ginl(b.clone(), g2) ; a.clone() >= b.clone() }
law!{ partial_cmp_trees__partial [T: Clone + PartialOrd] (h: Vec<T>, r: Vec<T>, t: Vec<T>, k: usize, g: u32, h2: Vec<T>, r2: Vec<T>, t2: Vec<T>, k2: usize, g2: u32) -> Option<Ordering> ; PartialOrd::partial_cmp(&gtree(tr(h.clone(), nabs(r.clone()), t.clone(), k), g), &gtree(tr(h2.clone(), nabs(r2.clone()), t2.clone(), k2), g2)) ; PartialOrd::partial_cmp(&c3(h.clone(), r.clone(), t.clone()), &c3(h2.clone(), r2.clone(), t2.clone())) }
law!{ lt_trees__partial [T: Clone + PartialOrd] (h: Vec<T>, r: Vec<T>, t: Vec<T>, k: usize, g: u32, h2: Vec<T>, r2: Vec<T>, t2: Vec<T>, k2: usize, g2: u32) -> bool ; gtree(tr(h.clone(), nabs(r.clone()), t.clone(), k), g) < gtree(tr(h2.clone(), nabs(r2.clone()), t2.clone(), k2), g2) ; c3(h.clone(), r.clone(), t.clone()) < c3(h2.clone(), r2.clone(), t2.clone()) }
law!{ ge_trees__partial [T: Clone + PartialOrd] (h: Vec<T>, r: Vec<T>, t: Vec<T>, k: usize, g: u32, h2: Vec<T>, r2: Vec<T>, t2: Vec<T>, k2: usize, g2: u32) -> bool ; gtree(tr(h.clone(), nabs(r.clone()), t.clone(), k), g) >= gtree(tr(h2.clone(), nabs(r2.clone()), t2.clone(), k2), g2) ; c3(h.clone(), r.clone(), t.clone()) >= c3(h2.clone(), r2.clone(), t2.clone()) }
law!{ partial_cmp_mixed_inline_tree__partial [T: Clone + PartialOrd] (a: Vec<T>, g: u32, h2: Vec<T>, r2: Vec<T>, t2: Vec<T>, k2: usize, g2: u32) -> Option<Ordering> ; PartialOrd::partial_cmp(&ginl(a.clone(), g), &gtree(tr(h2.clone(), nabs(r2.clone()), t2.clone(), k2), g2)) ; PartialOrd::partial_cmp(&a.clone(), &c3(h2.clone(), r2.clone(), t2.clone())) }
law!{ lt_mixed_inline_tree__partial [T: Clone + PartialOrd] (a: Vec<T>, g: u32, h2: Vec<T>, r2: Vec<T>, t2: Vec<T>, k2: usize, g2: u32) -> bool ; ginl(a.clone(), g) < gtree(tr(h2.clone(), nabs(r2.clone()), t2.clone(), k2), g2) ; a.clone() < c3(h2.clone(), r2.clone(), t2.clone()) }
law!{ ge_mixed_inline_tree__partial [T: Clone + PartialOrd] (a: Vec<T>, g: u32, h2: Vec<T>, r2: Vec<T>, t2: Vec<T>, k2: usize, g2: u32) -> bool ; ginl(a.clone(), g) >= gtree(tr(h2.clone(), nabs(r2.clone()), t2.clone(), k2), g2) ; a.clone() >= c3(h2.clone(), r2.clone(), t2.clone()) }
law!{ partial_cmp_mixed_tree_inline__partial [T: Clone + PartialOrd] (h: Vec<T>, r: Vec<T>, t: Vec<T>, k: usize, g: u32, b: Vec<T>, g2: u32) -> Option<Ordering> ; PartialOrd::partial_cmp(&gtree(tr(h.clone(), nabs(r.clone()), t.clone(), k), g), &ginl(b.clone(), g2)) ; PartialOrd::partial_cmp(&c3(h.clone(), r.clone(), t.clone()), &b.clone()) }
law!{ lt_mixed_tree_inline__partial [T: Clone + PartialOrd] (h: Vec<T>, r: Vec<T>, t: Vec<T>, k: usize, g: u32, b: Vec<T>, g2: u32) -> bool ; gtree(tr(h.clone(), nabs(r.clone()), t.clone(), k), g) < ginl(b.clone(), g2) ; c3(h.clone(), r.clone(), t.clone()) < b.clone() }
law!{ ge_mixed_tree_inline__partial [T: Clone + PartialOrd] (h: Vec<T>, r: Vec<T>, t: Vec<T>, k: usize, g: u32, b: Vec<T>, g2: u32) -> bool ; gtree(tr(h.clone(), nabs(r.clone()), t.clone(), k), g) >= ginl(b.clone(), g2) ; c3(h.clone(), r.clone(), t.clone()) >= b.clone() }
law!{ partial_cmp_mixed_any_inline__partial [T: Clone + PartialOrd] (a: Vec<T>, g: u32, b: Vec<T>, g2: u32) -> Option<Ordering> ; PartialOrd::partial_cmp(&pgen(a.clone(), g), &ginl(b.clone(), g2)) ; PartialOrd::partial_cmp(&a.clone(), &b.clone()) }
law!{ lt_mixed_any_inline__partial [T: Clone + PartialOrd] (a: Vec<T>, g: u32, b: Vec<T>, g2: u32) -> bool ; pgen(a.clone(), g) < ginl(b.clone(), g2) ; a.clone() < b.clone() }
law!{ ge_mixed_any_inline__partial [T: Clone + PartialOrd] (a: Vec<T>, g: u32, b: Vec<T>, g2: u32) -> bool ; pgen(a.clone(), g) >= ginl(b.clone(), g2) ; a.clone() >= b.clone() }
law!{ partial_cmp_mixed_any_tree__partial [T: Clone + PartialOrd] (a: Vec<T>, g: u32, h2: Vec<T>, r2: Vec<T>, t2: Vec<T>, k2: usize, g2: u32) -> Option<Ordering> ; PartialOrd::partial_cmp(&pgen(a.clone(), g), &gtree(tr(h2.clone(), nabs(r2.clone()), t2.clone(), k2), g2)) ; PartialOrd::partial_cmp(&a.clone(), &c3(h2.clone(), r2.clone(), t2.clone())) }
law!{ lt_mixed_any_tree__partial [T: Clone + PartialOrd] (a: Vec<T>, g: u32, h2: Vec<T>, r2: Vec<T>, t2: Vec<T>, k2: usize, g2: u32) -> bool ; pgen(a.clone(), g) < gtree(tr(h2.clone(), nabs(r2.clone()), t2.clone(), k2), g2) ; a.clone() < c3(h2.clone(), r2.clone(), t2.clone()) }
law!{ ge_mixed_any_tree__partial [T: Clone + PartialOrd] (a: Vec<T>, g: u32, h2: Vec<T>, r2: Vec<T>, t2: Vec<T>, k2: usize, g2: u32) -> bool ; pgen(a.clone(), g) >= gtree(tr(h2.clone(), nabs(r2.clone()), t2.clone(), k2), g2) ; a.clone() >= c3(h2.clone(), r2.clone(), t2.clone()) }
law!{ eq_any_any__partial [T: Clone + PartialEq] (a: Vec<T>, g: u32, b: Vec<T>, g2: u32) -> bool ; pgen(a.clone(), g) == pgen(b.clone(), g2) ; a.clone() == b.clone() }
law!{ ne_any_any__partial [T: Clone + PartialEq] (a: Vec<T>, g: u32, b: Vec<T>, g2: u32) -> bool ; pgen(a.clone(), g) != pgen(b.clone(), g2) ; a.clone() != b.clone() }
law!{ eq_inline_inline__partial [T: Clone + PartialEq] (a: Vec<T>, g: u32, b: Vec<T>, g2: u32) -> bool ; ginl(a.clone(), g) == ginl(b.clone(), g2) ; a.clone() == b.clone() }
law!{ ne_inline_inline__partial [T: Clone + PartialEq] (a: Vec<T>, g: u32, b: Vec<T>, g2: u32) -> bool ; ginl(a.clone(), g) != ginl(b.clone(), g2) ; a.clone() != b.clone() }
law!{ eq_trees__partial [T: Clone + PartialEq] (h: Vec<T>, r: Vec<T>, t: Vec<T>, k: usize, g: u32, h2: Vec<T>, r2: Vec<T>, t2: Vec<T>, k2: usize, g2: u32) -> bool ; gtree(tr(h.clone(), nabs(r.clone()), t.clone(), k), g) == gtree(tr(h2.clone(), nabs(r2.clone()), t2.clone(), k2), g2) ; c3(h.clone(), r.clone(), t.clone()) == c3(h2.clone(), r2.clone(), t2.clone()) }
law!{ ne_trees__partial [T: Clone + PartialEq] (h: Vec<T>, r: Vec<T>, t: Vec<T>, k: usize, g: u32, h2: Vec<T>, r2: Vec<T>, t2: Vec<T>, k2: usize, g2: u32) -> bool ; gtree(tr(h.clone(), nabs(r.clone()), t.clone(), k), g) != gtree(tr(h2.clone(), nabs(r2.clone()), t2.clone(), k2), g2) ; c3(h.clone(), r.clone(), t.clone()) != c3(h2.clone(), r2.clone(), t2.clone()) }
law!{ eq_mixed_inline_tree__partial [T: Clone + PartialEq] (a: Vec<T>, g: u32, h2: Vec<T>, r2: Vec<T>, t2: Vec<T>, k2: usize, g2: u32) -> bool ; ginl(a.clone(), g) == gtree(tr(h2.clone(), nabs(r2.clone()), t2.clone(), k2), g2) ; a.clone() == c3(h2.clone(), r2.clone(), t2.clone()) }
law!{ ne_mixed_inline_tree__partial [T: Clone + PartialEq] (a: Vec<T>, g: u32, h2: Vec<T>, r2: Vec<T>, t2: Vec<T>, k2: usize, g2: u32) -> bool ; ginl(a.clone(), g) != gtree(tr(h2.clone(), nabs(r2.clone()), t2.clone(), k2), g2) ; a.clone() != c3(h2.clone(), r2.clone(), t2.clone()) }
law!{ eq_mixed_tree_inline__partial [T: Clone + PartialEq] (h: Vec<T>, r: Vec<T>, t: Vec<T>, k: usize, g: u32, b: Vec<T>, g2: u32) -> bool ; gtree(tr(h.clone(), nabs(r.clone()), t.clone(), k), g) == ginl(b.clone(), g2) ; c3(h.clone(), r.clone(), t.clone()) == b.clone() }
law!{ ne_mixed_tree_inline__partial [T: Clone + PartialEq] (h: Vec<T>, r: Vec<T>, t: Vec<T>, k: usize, g: u32, b: Vec<T>, g2: u32) -> bool ; gtree(tr(h.clone(), nabs(r.clone()), t.clone(), k), g) != ginl(b.clone(), g2) ; c3(h.clone(), r.clone(), t.clone()) != b.clone() }
law!{ eq_mixed_any_inline__partial [T: Clone + PartialEq] (a: Vec<T>, g: u32, b: Vec<T>, g2: u32) -> bool ; pgen(a.clone(), g) == ginl(b.clone(), g2) ; a.clone() == b.clone() }
law!{ ne_mixed_any_inline__partial [T: Clone + PartialEq] (a: Vec<T>, g: u32, b: Vec<T>, g2: u32) -> bool ; pgen(a.clone(), g) != ginl(b.clone(), g2) ; a.clone() != b.clone() }
law!{ eq_mixed_any_tree__partial [T: Clone + PartialEq] (a: Vec<T>, g: u32, h2: Vec<T>, r2: Vec<T>, t2: Vec<T>, k2: usize, g2: u32) -> bool ; pgen(a.clone(), g) == gtree(tr(h2.clone(), nabs(r2.clone()), t2.clone(), k2), g2) ; a.clone() == c3(h2.clone(), r2.clone(), t2.clone()) }
law!{ ne_mixed_any_tree__partial [T: Clone + PartialEq] (a: Vec<T>, g: u32, h2: Vec<T>, r2: Vec<T>, t2: Vec<T>, k2: usize, g2: u32) -> bool ; pgen(a.clone(), g) != gtree(tr(h2.clone(), nabs(r2.clone()), t2.clone(), k2), g2) ; a.clone() != c3(h2.clone(), r2.clone(), t2.clone()) }
law!{ self_eq_inline__partial [T: Clone + PartialEq] (a: Vec<T>, g: u32) -> bool ; { let v = ginl(a.clone(), g); v == v.clone() } ; a.clone() == a.clone() }
law!{ self_eq_tree__partial [T: Clone + PartialEq] (h: Vec<T>, r: Vec<T>, t: Vec<T>, k: usize, g: u32) -> bool ; { let v = gtree(tr(h.clone(), nabs(r.clone()), t.clone(), k), g); v == v.clone() } ; c3(h.clone(), r.clone(), t.clone()) == c3(h.clone(), r.clone(), t.clone()) }
law!{ self_cmp_tree__partial [T: Clone + PartialOrd] (h: Vec<T>, r: Vec<T>, t: Vec<T>, k: usize, g: u32) -> Option<Ordering> ; { let v = gtree(tr(h.clone(), nabs(r.clone()), t.clone(), k), g); PartialOrd::partial_cmp(&v, &v.clone()) } ; PartialOrd::partial_cmp(&c3(h.clone(), r.clone(), t.clone()), &c3(h.clone(), r.clone(), t.clone())) }
