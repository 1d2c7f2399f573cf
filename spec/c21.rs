use super::refs::*;
// `$xs` is the list of contained elements, oldest first, read off by pattern matching alone.
pub fn option_list<A: Clone>(m: &Option<A>) -> Vec<A> { match m { Some(x) => one(x.clone()), None => Vec::new() } }
pub fn result_list<A: Clone, E>(m: &Result<A, E>) -> Vec<A> { match m { Ok(x) => one(x.clone()), Err(_) => Vec::new() } }
pub fn vec_list<A: Clone>(m: &Vec<A>) -> Vec<A> { let mut v = Vec::new(); for x in m { v.push(x.clone()); } v }
pub fn id_list<A: Clone>(m: &Id<A>) -> Vec<A> { one(m.as_ref().clone()) }
pub fn validated_list<A: Clone, E>(m: &Validated<E, A>) -> Vec<A> { match m { Validated::Valid(x) => one(x.clone()), Validated::Invalid(_) => Vec::new() } }
pub fn choice_list<A: Clone>(m: &Choice<A>) -> Vec<A> { let mut v = Vec::new(); for x in m.iter() { v.push(x.clone()); } v }
macro_rules! fo { ($n:ident [$($g:tt)*] $t:ty, $l:path) => { pub mod $n { use super::*;
    law!{ fold_left [A: Clone, B: Clone, F: Fn(&B, &A) -> B $($g)*] (m: &$t, i: &B, f: F) -> B ; Foldable::fold_left(m, i, f) ; { let mut r = i.clone(); for x in $l(m) { r = f(&r, &x); } r } }
    law!{ fold_right [A: Clone, B: Clone, F: Fn(&A, &B) -> B $($g)*] (m: &$t, i: &B, f: F) -> B ; Foldable::fold_right(m, i, f) ; { let mut r = i.clone(); for x in $l(m).into_iter().rev() { r = f(&x, &r); } r } }
    vlaw!{ fold_map [A: Clone, M: Monoid + Clone, F: Fn(&A) -> M $($g)*] (m: &$t, f: F) -> M ; Foldable::fold_map(m, f) ; { let mut r = M::empty(); for x in $l(m) { r = r.combine(&f(&x)); } r } }
    vlaw!{ fold_monoid [A: Clone + Into<M>, M: Monoid + Clone $($g)*] (m: &$t) -> M ; Foldable::fold_monoid(m) ; { let mut r = M::empty(); for x in $l(m) { r = r.combine(&x.into()); } r } }
    vlaw!{ length [A: Clone $($g)*] (m: &$t) -> usize ; Foldable::length(m) ; $l(m).len() }
    vlaw!{ is_empty [A: Clone $($g)*] (m: &$t) -> bool ; Foldable::is_empty(m) ; $l(m).len() == 0 }
    vlaw!{ find [A: Clone, P: Fn(&A) -> bool $($g)*] (m: &$t, p: P) -> Option<A> ; FoldableExt::find(m, p) ; { for x in $l(m) { if p(&x) { return Some(x); } } None } }
    vlaw!{ all [A: Clone, P: Fn(&A) -> bool $($g)*] (m: &$t, p: P) -> bool ; FoldableExt::all(m, p) ; { for x in $l(m) { if !p(&x) { return false; } } true } }
    vlaw!{ any [A: Clone, P: Fn(&A) -> bool $($g)*] (m: &$t, p: P) -> bool ; FoldableExt::any(m, p) ; { for x in $l(m) { if p(&x) { return true; } } false } }
    vlaw!{ contains [A: Clone + PartialEq $($g)*] (m: &$t, v: &A) -> bool ; FoldableExt::contains(m, v) ; { for x in $l(m) { if x == *v { return true; } } false } }
    vlaw!{ fold_option [A: Clone, B: Monoid + Clone, F: Fn(&A) -> Option<B> $($g)*] (m: &$t, f: F) -> Option<B> ; FoldableExt::fold_option(m, f) ; { let mut r = B::empty(); for x in $l(m) { match f(&x) { Some(b) => r = r.combine(&b), None => return None } } Some(r) } }
    vlaw!{ to_vec [A: Clone $($g)*] (m: &$t) -> Vec<A> ; FoldableExt::to_vec(m) ; $l(m) }
    vlaw!{ sum_values [A: Clone + Default + Add<Output = A> $($g)*] (m: &$t) -> A ; FoldableExt::sum_values(m) ; { let mut r = A::default(); for x in $l(m) { r = r + x; } r } }
    vlaw!{ product_values [A: Clone + From<u8> + Mul<Output = A> $($g)*] (m: &$t) -> A ; FoldableExt::product_values(m) ; { let mut r = A::from(1u8); for x in $l(m) { r = r * x; } r } }
    vlaw!{ maximum [A: Clone + Ord $($g)*] (m: &$t) -> Option<A> ; FoldableExt::maximum(m) ; { let mut r: Option<A> = None; for x in $l(m) { r = match r { None => Some(x), Some(y) => if x > y { Some(x) } else { Some(y) } }; } r } }
    vlaw!{ minimum [A: Clone + Ord $($g)*] (m: &$t) -> Option<A> ; FoldableExt::minimum(m) ; { let mut r: Option<A> = None; for x in $l(m) { r = match r { None => Some(x), Some(y) => if x < y { Some(x) } else { Some(y) } }; } r } }
    vlaw!{ reduce [A: Clone, F: Fn(&A, &A) -> A $($g)*] (m: &$t, f: F) -> Option<A> ; FoldableExt::reduce(m, f) ; { let mut r: Option<A> = None; for x in $l(m) { r = match r { None => Some(x), Some(y) => Some(f(&y, &x)) }; } r } }
    vlaw!{ is_sorted [A: Clone + Ord $($g)*] (m: &$t) -> bool ; FoldableExt::is_sorted(m) ; { let mut s = true; let mut p: Option<A> = None; for x in $l(m) { if let Some(q) = &p { if *q > x { s = false; } } p = Some(x); } s } }
} } }
fo!{ option [] Option<A>, option_list }
fo!{ result [, E: Clone] Result<A, E>, result_list }
fo!{ vec [] Vec<A>, vec_list }
fo!{ id [] Id<A>, id_list }
fo!{ validated [, E: Clone] Validated<E, A>, validated_list }
fo!{ choice [] Choice<A>, choice_list }
//@also c24: seq::fold_left|seq::fold_right|seq::length
//@also c22: fold_with\w*
