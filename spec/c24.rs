//! Persistent vector operations against the plain sequence.
//@at rrb::from_elements : 1 64 65 66 130 2112 2113 2200 : 0
//@at =shape_[lmn].::split_at|shape_[lmn].::get|shape_leaf::(split_at|get) : 1 2,1 1,2,1 0,2 2,0,1 3 64 64,1 40 : 0 1 2 3 4 5 6 63 64 65 100
//@at =shape_[lmn].::split_at_head|shape_leaf::split_at_head : 1 2,1 1,2,1 0,2 64,3 : 0 1 2 3 4 5 6 64 66 100
//@at =node::push_(front_)?leaf_wide : 0,1 1,1 2,0 31,2 32,1 33,1 40,64 : 0
//@at (inline|shape_.*)::.*|node::(update|size).*|seq(_inline)?::.* : 1 2,1 0,2,1 2,0,1 64 63,1 65 64,0,64 1,64,1 : 0 1 2 63 64 65 100
//@at (tree|rrb|seq_tree)::.* : 1 2,1 0,2,1 2,0,1 64 63,1 65 64,0,64 1,64,1 : 0 1 2 64 100 0,1 0,2 1,0 1,2 2,1 0,63 0,65 1,64
//@at concat::.*|node::.* : 1 2,1 0,2,1 64 63,1 65 64,0,64 1,64,1 0,64,1 40,1,0 : 0
//@at =shape_[lmn].::pop_(back|front) : 1 2,1 1,2,1 0,2 2,0,1 3 64 64,1 40 0 0,1 1,0 : 0
use super::refs::*;
pub fn sq<T: Clone>(v: &PersistentVector<T>) -> (Vec<T>, bool) { (pseq(v), pinv(v)) }
pub fn sq2<T: Clone>(r: &(PersistentVector<T>, PersistentVector<T>)) -> (Vec<T>, bool, Vec<T>, bool) { (pseq(&r.0), pinv(&r.0), pseq(&r.1), pinv(&r.1)) }
pub fn sqo<T: Clone>(r: &Option<(PersistentVector<T>, T)>) -> Option<(Vec<T>, bool, T)> { match r { Some((v, x)) => Some((pseq(v), pinv(v), x.clone())), None => None } }
pub(crate) fn tq<T: Clone>(v: &RRBTree<T>) -> (Vec<T>, bool) { (tseq(v), tinv(v)) }
pub(crate) fn tq2<T: Clone>(r: &(RRBTree<T>, RRBTree<T>)) -> (Vec<T>, bool, Vec<T>, bool) { (tseq(&r.0), tinv(&r.0), tseq(&r.1), tinv(&r.1)) }
pub(crate) fn tqo<T: Clone>(r: &Option<(RRBTree<T>, T)>) -> Option<(Vec<T>, bool, T)> { match r { Some((v, x)) => Some((tseq(v), tinv(v), x.clone())), None => None } }
pub(crate) fn nq<T: Clone>(v: &RRBNode<T>) -> (Vec<T>, bool) { (nseq(v), ninv(v)) }
pub(crate) fn nqo<T: Clone>(r: &Option<(RRBNode<T>, T)>) -> Option<(Vec<T>, bool, T)> { match r { Some((v, x)) => Some((nseq(v), ninv(v), x.clone())), None => None } }
pub fn u<T: Clone>(mut w: Vec<T>, i: usize, x: T) -> Vec<T> { if i < w.len() { w[i] = x; } w }
pub fn pb<T: Clone>(mut w: Vec<T>) -> Option<(Vec<T>, bool, T)> { match w.pop() { Some(x) => Some((w, true, x)), None => None } }
pub fn pf<T: Clone>(mut w: Vec<T>) -> Option<(Vec<T>, bool, T)> { if w.is_empty() { None } else { let x = w.remove(0); Some((w, true, x)) } }
pub fn sp<T: Clone>(w: Vec<T>, i: usize) -> (Vec<T>, bool, Vec<T>, bool) { (w.iter().take(i).cloned().collect(), true, w.iter().skip(i).cloned().collect(), true) }
pub fn c3<T>(a: Vec<T>, b: Vec<T>, c: Vec<T>) -> Vec<T> { cat(cat(a, b), c) }
pub mod inline { use super::*;
law!{ get [T: Clone] (w: Vec<T>, i: usize) -> Option<T> ; pinl(w.clone()).get(i).cloned() ; w.clone().get(i).cloned() }
law!{ update [T: Clone] (w: Vec<T>, i: usize, x: T) -> (Vec<T>, bool) ; sq(&pinl(w.clone()).update(i, x.clone())) ; (u(w.clone(), i, x.clone()), true) }
law!{ push_back [T: Clone] (w: Vec<T>, x: T) -> (Vec<T>, bool) ; sq(&pinl(w.clone()).push_back(x.clone())) ; (cat(w.clone(), one(x.clone())), true) }
law!{ push_front [T: Clone] (w: Vec<T>, x: T) -> (Vec<T>, bool) ; sq(&pinl(w.clone()).push_front(x.clone())) ; (cat(one(x.clone()), w.clone()), true) }
law!{ pop_back [T: Clone] (w: Vec<T>) -> Option<(Vec<T>, bool, T)> ; sqo(&pinl(w.clone()).pop_back()) ; pb(w.clone()) }
law!{ pop_front [T: Clone] (w: Vec<T>) -> Option<(Vec<T>, bool, T)> ; sqo(&pinl(w.clone()).pop_front()) ; pf(w.clone()) }
law!{ split_at [T: Clone] (w: Vec<T>, i: usize) -> (Vec<T>, bool, Vec<T>, bool) ; sq2(&pinl(w.clone()).split_at(i)) ; sp(w.clone(), i) }
}
pub mod tree { use super::*;
law!{ get [T: Clone] (h: Vec<T>, r: Vec<T>, t: Vec<T>, k: usize, i: usize) -> Option<T> ; ptree(tr(h.clone(), nabs(r.clone()), t.clone(), k)).get(i).cloned() ; c3(h.clone(), r.clone(), t.clone()).get(i).cloned() }
law!{ update [T: Clone] (h: Vec<T>, r: Vec<T>, t: Vec<T>, k: usize, i: usize, x: T) -> (Vec<T>, bool) ; sq(&ptree(tr(h.clone(), nabs(r.clone()), t.clone(), k)).update(i, x.clone())) ; (u(c3(h.clone(), r.clone(), t.clone()), i, x.clone()), true) }
law!{ push_back [T: Clone] (h: Vec<T>, r: Vec<T>, t: Vec<T>, k: usize, x: T) -> (Vec<T>, bool) ; sq(&ptree(tr(h.clone(), nabs(r.clone()), t.clone(), k)).push_back(x.clone())) ; (cat(c3(h.clone(), r.clone(), t.clone()), one(x.clone())), true) }
law!{ push_front [T: Clone] (h: Vec<T>, r: Vec<T>, t: Vec<T>, k: usize, x: T) -> (Vec<T>, bool) ; sq(&ptree(tr(h.clone(), nabs(r.clone()), t.clone(), k)).push_front(x.clone())) ; (cat(one(x.clone()), c3(h.clone(), r.clone(), t.clone())), true) }
law!{ pop_back [T: Clone] (h: Vec<T>, r: Vec<T>, t: Vec<T>, k: usize) -> Option<(Vec<T>, bool, T)> ; sqo(&ptree(tr(h.clone(), nabs(r.clone()), t.clone(), k)).pop_back()) ; pb(c3(h.clone(), r.clone(), t.clone())) }
law!{ pop_front [T: Clone] (h: Vec<T>, r: Vec<T>, t: Vec<T>, k: usize) -> Option<(Vec<T>, bool, T)> ; sqo(&ptree(tr(h.clone(), nabs(r.clone()), t.clone(), k)).pop_front()) ; pf(c3(h.clone(), r.clone(), t.clone())) }
law!{ split_at [T: Clone] (h: Vec<T>, r: Vec<T>, t: Vec<T>, k: usize, i: usize) -> (Vec<T>, bool, Vec<T>, bool) ; sq2(&ptree(tr(h.clone(), nabs(r.clone()), t.clone(), k)).split_at(i)) ; sp(c3(h.clone(), r.clone(), t.clone()), i) }
}
pub mod concat { use super::*;
law!{ ii [T: Clone] (w: Vec<T>, v: Vec<T>) -> (Vec<T>, bool) ; sq(&pinl(w.clone()).concat(&pinl(v.clone()))) ; (cat(w.clone(), v.clone()), true) }
law!{ it [T: Clone] (w: Vec<T>, h2: Vec<T>, r2: Vec<T>, t2: Vec<T>, k2: usize) -> (Vec<T>, bool) ; sq(&pinl(w.clone()).concat(&ptree(tr(h2.clone(), nabs(r2.clone()), t2.clone(), k2)))) ; (cat(w.clone(), c3(h2.clone(), r2.clone(), t2.clone())), true) }
law!{ ti [T: Clone] (h: Vec<T>, r: Vec<T>, t: Vec<T>, k: usize, v: Vec<T>) -> (Vec<T>, bool) ; sq(&ptree(tr(h.clone(), nabs(r.clone()), t.clone(), k)).concat(&pinl(v.clone()))) ; (cat(c3(h.clone(), r.clone(), t.clone()), v.clone()), true) }
law!{ tt [T: Clone] (h: Vec<T>, r: Vec<T>, t: Vec<T>, k: usize, h2: Vec<T>, r2: Vec<T>, t2: Vec<T>, k2: usize) -> (Vec<T>, bool) ; sq(&ptree(tr(h.clone(), nabs(r.clone()), t.clone(), k)).concat(&ptree(tr(h2.clone(), nabs(r2.clone()), t2.clone(), k2)))) ; (cat(c3(h.clone(), r.clone(), t.clone()), c3(h2.clone(), r2.clone(), t2.clone())), true) }
}
pub mod rrb { use super::*;
law!{ get [T: Clone] (h: Vec<T>, r: Vec<T>, t: Vec<T>, k: usize, i: usize) -> Option<T> ; tr(h.clone(), nabs(r.clone()), t.clone(), k).get(i).cloned() ; c3(h.clone(), r.clone(), t.clone()).get(i).cloned() }
law!{ update [T: Clone] (h: Vec<T>, r: Vec<T>, t: Vec<T>, k: usize, i: usize, x: T) -> (Vec<T>, bool) ; tq(&tr(h.clone(), nabs(r.clone()), t.clone(), k).update(i, x.clone())) ; (u(c3(h.clone(), r.clone(), t.clone()), i, x.clone()), true) }
law!{ push_back [T: Clone] (h: Vec<T>, r: Vec<T>, t: Vec<T>, k: usize, x: T) -> (Vec<T>, bool) ; tq(&tr(h.clone(), nabs(r.clone()), t.clone(), k).push_back(x.clone())) ; (cat(c3(h.clone(), r.clone(), t.clone()), one(x.clone())), true) }
law!{ push_front [T: Clone] (h: Vec<T>, r: Vec<T>, t: Vec<T>, k: usize, x: T) -> (Vec<T>, bool) ; tq(&tr(h.clone(), nabs(r.clone()), t.clone(), k).push_front(x.clone())) ; (cat(one(x.clone()), c3(h.clone(), r.clone(), t.clone())), true) }
law!{ pop_back [T: Clone] (h: Vec<T>, r: Vec<T>, t: Vec<T>, k: usize) -> Option<(Vec<T>, bool, T)> ; tqo(&tr(h.clone(), nabs(r.clone()), t.clone(), k).pop_back()) ; pb(c3(h.clone(), r.clone(), t.clone())) }
law!{ pop_front [T: Clone] (h: Vec<T>, r: Vec<T>, t: Vec<T>, k: usize) -> Option<(Vec<T>, bool, T)> ; tqo(&tr(h.clone(), nabs(r.clone()), t.clone(), k).pop_front()) ; pf(c3(h.clone(), r.clone(), t.clone())) }
law!{ split_at [T: Clone] (h: Vec<T>, r: Vec<T>, t: Vec<T>, k: usize, i: usize) -> (Vec<T>, bool, Vec<T>, bool) ; tq2(&tr(h.clone(), nabs(r.clone()), t.clone(), k).split_at(i)) ; sp(c3(h.clone(), r.clone(), t.clone()), i) }
law!{ from_elements [T: Clone] (w: Vec<T>) -> (Vec<T>, bool) ; tq(&RRBTree::from_elements(w.clone().into_iter())) ; (w.clone(), true) }
law!{ concat_00 [T: Clone] (h: Vec<T>, r: Vec<T>, t: Vec<T>, h2: Vec<T>, r2: Vec<T>, t2: Vec<T>) -> (Vec<T>, bool) ; tq(&tr(h.clone(), nabs(r.clone()), t.clone(), 0).concat(&tr(h2.clone(), nabs(r2.clone()), t2.clone(), 0))) ; (cat(c3(h.clone(), r.clone(), t.clone()), c3(h2.clone(), r2.clone(), t2.clone())), true) }
law!{ concat_01 [T: Clone] (h: Vec<T>, r: Vec<T>, t: Vec<T>, h2: Vec<T>, r2: Vec<T>, t2: Vec<T>) -> (Vec<T>, bool) ; tq(&tr(h.clone(), nabs(r.clone()), t.clone(), 0).concat(&tr(h2.clone(), nabs(r2.clone()), t2.clone(), 1))) ; (cat(c3(h.clone(), r.clone(), t.clone()), c3(h2.clone(), r2.clone(), t2.clone())), true) }
law!{ concat_02 [T: Clone] (h: Vec<T>, r: Vec<T>, t: Vec<T>, h2: Vec<T>, r2: Vec<T>, t2: Vec<T>) -> (Vec<T>, bool) ; tq(&tr(h.clone(), nabs(r.clone()), t.clone(), 0).concat(&tr(h2.clone(), nabs(r2.clone()), t2.clone(), 2))) ; (cat(c3(h.clone(), r.clone(), t.clone()), c3(h2.clone(), r2.clone(), t2.clone())), true) }
law!{ concat_10 [T: Clone] (h: Vec<T>, r: Vec<T>, t: Vec<T>, h2: Vec<T>, r2: Vec<T>, t2: Vec<T>) -> (Vec<T>, bool) ; tq(&tr(h.clone(), nabs(r.clone()), t.clone(), 1).concat(&tr(h2.clone(), nabs(r2.clone()), t2.clone(), 0))) ; (cat(c3(h.clone(), r.clone(), t.clone()), c3(h2.clone(), r2.clone(), t2.clone())), true) }
law!{ concat_11 [T: Clone] (h: Vec<T>, r: Vec<T>, t: Vec<T>, h2: Vec<T>, r2: Vec<T>, t2: Vec<T>) -> (Vec<T>, bool) ; tq(&tr(h.clone(), nabs(r.clone()), t.clone(), 1).concat(&tr(h2.clone(), nabs(r2.clone()), t2.clone(), 1))) ; (cat(c3(h.clone(), r.clone(), t.clone()), c3(h2.clone(), r2.clone(), t2.clone())), true) }
law!{ concat_12 [T: Clone] (h: Vec<T>, r: Vec<T>, t: Vec<T>, h2: Vec<T>, r2: Vec<T>, t2: Vec<T>) -> (Vec<T>, bool) ; tq(&tr(h.clone(), nabs(r.clone()), t.clone(), 1).concat(&tr(h2.clone(), nabs(r2.clone()), t2.clone(), 2))) ; (cat(c3(h.clone(), r.clone(), t.clone()), c3(h2.clone(), r2.clone(), t2.clone())), true) }
law!{ concat_20 [T: Clone] (h: Vec<T>, r: Vec<T>, t: Vec<T>, h2: Vec<T>, r2: Vec<T>, t2: Vec<T>) -> (Vec<T>, bool) ; tq(&tr(h.clone(), nabs(r.clone()), t.clone(), 2).concat(&tr(h2.clone(), nabs(r2.clone()), t2.clone(), 0))) ; (cat(c3(h.clone(), r.clone(), t.clone()), c3(h2.clone(), r2.clone(), t2.clone())), true) }
law!{ concat_21 [T: Clone] (h: Vec<T>, r: Vec<T>, t: Vec<T>, h2: Vec<T>, r2: Vec<T>, t2: Vec<T>) -> (Vec<T>, bool) ; tq(&tr(h.clone(), nabs(r.clone()), t.clone(), 2).concat(&tr(h2.clone(), nabs(r2.clone()), t2.clone(), 1))) ; (cat(c3(h.clone(), r.clone(), t.clone()), c3(h2.clone(), r2.clone(), t2.clone())), true) }
law!{ concat_22 [T: Clone] (h: Vec<T>, r: Vec<T>, t: Vec<T>, h2: Vec<T>, r2: Vec<T>, t2: Vec<T>) -> (Vec<T>, bool) ; tq(&tr(h.clone(), nabs(r.clone()), t.clone(), 2).concat(&tr(h2.clone(), nabs(r2.clone()), t2.clone(), 2))) ; (cat(c3(h.clone(), r.clone(), t.clone()), c3(h2.clone(), r2.clone(), t2.clone())), true) }
}
pub mod shape_leaf { use super::*;
law!{ get [T: Clone] (h: Vec<T>, t: Vec<T>, a: Vec<T>, i: usize) -> Option<T> ; tr(h.clone(), leaf(a.clone()), t.clone(), 0).get(i).cloned() ; c3(h.clone(), a.clone(), t.clone()).get(i).cloned() }
law!{ update [T: Clone] (h: Vec<T>, t: Vec<T>, a: Vec<T>, i: usize, x: T) -> (Vec<T>, bool) ; tq(&tr(h.clone(), leaf(a.clone()), t.clone(), 0).update(i, x.clone())) ; (u(c3(h.clone(), a.clone(), t.clone()), i, x.clone()), true) }
law!{ push_back [T: Clone] (h: Vec<T>, t: Vec<T>, a: Vec<T>, x: T) -> (Vec<T>, bool) ; tq(&tr(h.clone(), leaf(a.clone()), t.clone(), 0).push_back(x.clone())) ; (cat(c3(h.clone(), a.clone(), t.clone()), one(x.clone())), true) }
law!{ push_front [T: Clone] (h: Vec<T>, t: Vec<T>, a: Vec<T>, x: T) -> (Vec<T>, bool) ; tq(&tr(h.clone(), leaf(a.clone()), t.clone(), 0).push_front(x.clone())) ; (cat(one(x.clone()), c3(h.clone(), a.clone(), t.clone())), true) }
law!{ split_at [T: Clone] (a: Vec<T>, i: usize) -> (Vec<T>, bool, Vec<T>, bool) ; tq2(&tr(Vec::new(), leaf(a.clone()), Vec::new(), 0).split_at(i)) ; sp(a.clone(), i) }
law!{ pop_back [T: Clone] (a: Vec<T>) -> Option<(Vec<T>, bool, T)> ; tqo(&tr(Vec::new(), leaf(a.clone()), Vec::new(), 0).pop_back()) ; pb(a.clone()) }
law!{ pop_front [T: Clone] (a: Vec<T>) -> Option<(Vec<T>, bool, T)> ; tqo(&tr(Vec::new(), leaf(a.clone()), Vec::new(), 0).pop_front()) ; pf(a.clone()) }
law!{ split_at_head [T: Clone] (h: Vec<T>, a: Vec<T>, i: usize) -> (Vec<T>, bool, Vec<T>, bool) ; tq2(&tr(h.clone(), leaf(a.clone()), Vec::new(), 0).split_at(i)) ; sp(cat(h.clone(), a.clone()), i) }
law!{ concat_leaf [T: Clone] (h: Vec<T>, a: Vec<T>, a2: Vec<T>, t: Vec<T>) -> (Vec<T>, bool) ; tq(&tr(h.clone(), leaf(a.clone()), Vec::new(), 0).concat(&tr(Vec::new(), leaf(a2.clone()), t.clone(), 0))) ; (cat(cat(h.clone(), a.clone()), cat(a2.clone(), t.clone())), true) }
law!{ concat_ends_leaf [T: Clone] (x: Vec<T>, a: Vec<T>, a2: Vec<T>, y: Vec<T>) -> (Vec<T>, bool) ; tq(&tr(Vec::new(), leaf(a.clone()), x.clone(), 0).concat(&tr(y.clone(), leaf(a2.clone()), Vec::new(), 0))) ; (cat(cat(a.clone(), x.clone()), cat(y.clone(), a2.clone())), true) }
law!{ concat_l2 [T: Clone] (h: Vec<T>, a: Vec<T>, a2: Vec<T>, b2: Vec<T>, t: Vec<T>) -> (Vec<T>, bool) ; tq(&tr(h.clone(), leaf(a.clone()), Vec::new(), 0).concat(&tr(Vec::new(), branch(vec![leaf(a2.clone()), leaf(b2.clone())]), t.clone(), 1))) ; (cat(cat(h.clone(), a.clone()), cat(cat(a2.clone(), b2.clone()), t.clone())), true) }
law!{ concat_ends_l2 [T: Clone] (x: Vec<T>, a: Vec<T>, a2: Vec<T>, b2: Vec<T>, y: Vec<T>) -> (Vec<T>, bool) ; tq(&tr(Vec::new(), leaf(a.clone()), x.clone(), 0).concat(&tr(y.clone(), branch(vec![leaf(a2.clone()), leaf(b2.clone())]), Vec::new(), 1))) ; (cat(cat(a.clone(), x.clone()), cat(y.clone(), cat(a2.clone(), b2.clone()))), true) }
law!{ concat_m2 [T: Clone] (h: Vec<T>, a: Vec<T>, a2: Vec<T>, b2: Vec<T>, c2: Vec<T>, t: Vec<T>) -> (Vec<T>, bool) ; tq(&tr(h.clone(), leaf(a.clone()), Vec::new(), 0).concat(&tr(Vec::new(), branch(vec![branch(vec![leaf(a2.clone()), leaf(b2.clone())]), leaf(c2.clone())]), t.clone(), 2))) ; (cat(cat(h.clone(), a.clone()), cat(c3(a2.clone(), b2.clone(), c2.clone()), t.clone())), true) }
law!{ concat_ends_m2 [T: Clone] (x: Vec<T>, a: Vec<T>, a2: Vec<T>, b2: Vec<T>, c2: Vec<T>, y: Vec<T>) -> (Vec<T>, bool) ; tq(&tr(Vec::new(), leaf(a.clone()), x.clone(), 0).concat(&tr(y.clone(), branch(vec![branch(vec![leaf(a2.clone()), leaf(b2.clone())]), leaf(c2.clone())]), Vec::new(), 2))) ; (cat(cat(a.clone(), x.clone()), cat(y.clone(), c3(a2.clone(), b2.clone(), c2.clone()))), true) }
}
pub mod shape_b1 { use super::*;
law!{ update [T: Clone] (h: Vec<T>, t: Vec<T>, a: Vec<T>, i: usize, x: T) -> (Vec<T>, bool) ; tq(&tr(h.clone(), branch(vec![nabs(a.clone())]), t.clone(), 1).update(i, x.clone())) ; (u(c3(h.clone(), a.clone(), t.clone()), i, x.clone()), true) }
law!{ push_back [T: Clone] (h: Vec<T>, t: Vec<T>, a: Vec<T>, x: T) -> (Vec<T>, bool) ; tq(&tr(h.clone(), branch(vec![nabs(a.clone())]), t.clone(), 1).push_back(x.clone())) ; (cat(c3(h.clone(), a.clone(), t.clone()), one(x.clone())), true) }
law!{ push_front [T: Clone] (h: Vec<T>, t: Vec<T>, a: Vec<T>, x: T) -> (Vec<T>, bool) ; tq(&tr(h.clone(), branch(vec![nabs(a.clone())]), t.clone(), 1).push_front(x.clone())) ; (cat(one(x.clone()), c3(h.clone(), a.clone(), t.clone())), true) }
law!{ concat_leaf [T: Clone] (h: Vec<T>, a: Vec<T>, a2: Vec<T>, t: Vec<T>) -> (Vec<T>, bool) ; tq(&tr(h.clone(), branch(vec![nabs(a.clone())]), Vec::new(), 1).concat(&tr(Vec::new(), leaf(a2.clone()), t.clone(), 0))) ; (cat(cat(h.clone(), a.clone()), cat(a2.clone(), t.clone())), true) }
law!{ concat_ends_leaf [T: Clone] (x: Vec<T>, a: Vec<T>, a2: Vec<T>, y: Vec<T>) -> (Vec<T>, bool) ; tq(&tr(Vec::new(), branch(vec![nabs(a.clone())]), x.clone(), 1).concat(&tr(y.clone(), leaf(a2.clone()), Vec::new(), 0))) ; (cat(cat(a.clone(), x.clone()), cat(y.clone(), a2.clone())), true) }
law!{ concat_l2 [T: Clone] (h: Vec<T>, a: Vec<T>, a2: Vec<T>, b2: Vec<T>, t: Vec<T>) -> (Vec<T>, bool) ; tq(&tr(h.clone(), branch(vec![nabs(a.clone())]), Vec::new(), 1).concat(&tr(Vec::new(), branch(vec![leaf(a2.clone()), leaf(b2.clone())]), t.clone(), 1))) ; (cat(cat(h.clone(), a.clone()), cat(cat(a2.clone(), b2.clone()), t.clone())), true) }
law!{ concat_ends_l2 [T: Clone] (x: Vec<T>, a: Vec<T>, a2: Vec<T>, b2: Vec<T>, y: Vec<T>) -> (Vec<T>, bool) ; tq(&tr(Vec::new(), branch(vec![nabs(a.clone())]), x.clone(), 1).concat(&tr(y.clone(), branch(vec![leaf(a2.clone()), leaf(b2.clone())]), Vec::new(), 1))) ; (cat(cat(a.clone(), x.clone()), cat(y.clone(), cat(a2.clone(), b2.clone()))), true) }
law!{ concat_m2 [T: Clone] (h: Vec<T>, a: Vec<T>, a2: Vec<T>, b2: Vec<T>, c2: Vec<T>, t: Vec<T>) -> (Vec<T>, bool) ; tq(&tr(h.clone(), branch(vec![nabs(a.clone())]), Vec::new(), 1).concat(&tr(Vec::new(), branch(vec![branch(vec![leaf(a2.clone()), leaf(b2.clone())]), leaf(c2.clone())]), t.clone(), 2))) ; (cat(cat(h.clone(), a.clone()), cat(c3(a2.clone(), b2.clone(), c2.clone()), t.clone())), true) }
law!{ concat_ends_m2 [T: Clone] (x: Vec<T>, a: Vec<T>, a2: Vec<T>, b2: Vec<T>, c2: Vec<T>, y: Vec<T>) -> (Vec<T>, bool) ; tq(&tr(Vec::new(), branch(vec![nabs(a.clone())]), x.clone(), 1).concat(&tr(y.clone(), branch(vec![branch(vec![leaf(a2.clone()), leaf(b2.clone())]), leaf(c2.clone())]), Vec::new(), 2))) ; (cat(cat(a.clone(), x.clone()), cat(y.clone(), c3(a2.clone(), b2.clone(), c2.clone()))), true) }
}
pub mod shape_b2 { use super::*;
law!{ update [T: Clone] (h: Vec<T>, t: Vec<T>, a: Vec<T>, b: Vec<T>, i: usize, x: T) -> (Vec<T>, bool) ; tq(&tr(h.clone(), branch(vec![nabs(a.clone()), nabs(b.clone())]), t.clone(), 1).update(i, x.clone())) ; (u(c3(h.clone(), cat(a.clone(), b.clone()), t.clone()), i, x.clone()), true) }
law!{ push_back [T: Clone] (h: Vec<T>, t: Vec<T>, a: Vec<T>, b: Vec<T>, x: T) -> (Vec<T>, bool) ; tq(&tr(h.clone(), branch(vec![nabs(a.clone()), nabs(b.clone())]), t.clone(), 1).push_back(x.clone())) ; (cat(c3(h.clone(), cat(a.clone(), b.clone()), t.clone()), one(x.clone())), true) }
law!{ push_front [T: Clone] (h: Vec<T>, t: Vec<T>, a: Vec<T>, b: Vec<T>, x: T) -> (Vec<T>, bool) ; tq(&tr(h.clone(), branch(vec![nabs(a.clone()), nabs(b.clone())]), t.clone(), 1).push_front(x.clone())) ; (cat(one(x.clone()), c3(h.clone(), cat(a.clone(), b.clone()), t.clone())), true) }
law!{ concat_leaf [T: Clone] (h: Vec<T>, a: Vec<T>, b: Vec<T>, a2: Vec<T>, t: Vec<T>) -> (Vec<T>, bool) ; tq(&tr(h.clone(), branch(vec![nabs(a.clone()), nabs(b.clone())]), Vec::new(), 1).concat(&tr(Vec::new(), leaf(a2.clone()), t.clone(), 0))) ; (cat(cat(h.clone(), cat(a.clone(), b.clone())), cat(a2.clone(), t.clone())), true) }
law!{ concat_ends_leaf [T: Clone] (x: Vec<T>, a: Vec<T>, b: Vec<T>, a2: Vec<T>, y: Vec<T>) -> (Vec<T>, bool) ; tq(&tr(Vec::new(), branch(vec![nabs(a.clone()), nabs(b.clone())]), x.clone(), 1).concat(&tr(y.clone(), leaf(a2.clone()), Vec::new(), 0))) ; (cat(cat(cat(a.clone(), b.clone()), x.clone()), cat(y.clone(), a2.clone())), true) }
law!{ concat_l2 [T: Clone] (h: Vec<T>, a: Vec<T>, b: Vec<T>, a2: Vec<T>, b2: Vec<T>, t: Vec<T>) -> (Vec<T>, bool) ; tq(&tr(h.clone(), branch(vec![nabs(a.clone()), nabs(b.clone())]), Vec::new(), 1).concat(&tr(Vec::new(), branch(vec![leaf(a2.clone()), leaf(b2.clone())]), t.clone(), 1))) ; (cat(cat(h.clone(), cat(a.clone(), b.clone())), cat(cat(a2.clone(), b2.clone()), t.clone())), true) }
law!{ concat_ends_l2 [T: Clone] (x: Vec<T>, a: Vec<T>, b: Vec<T>, a2: Vec<T>, b2: Vec<T>, y: Vec<T>) -> (Vec<T>, bool) ; tq(&tr(Vec::new(), branch(vec![nabs(a.clone()), nabs(b.clone())]), x.clone(), 1).concat(&tr(y.clone(), branch(vec![leaf(a2.clone()), leaf(b2.clone())]), Vec::new(), 1))) ; (cat(cat(cat(a.clone(), b.clone()), x.clone()), cat(y.clone(), cat(a2.clone(), b2.clone()))), true) }
law!{ concat_m2 [T: Clone] (h: Vec<T>, a: Vec<T>, b: Vec<T>, a2: Vec<T>, b2: Vec<T>, c2: Vec<T>, t: Vec<T>) -> (Vec<T>, bool) ; tq(&tr(h.clone(), branch(vec![nabs(a.clone()), nabs(b.clone())]), Vec::new(), 1).concat(&tr(Vec::new(), branch(vec![branch(vec![leaf(a2.clone()), leaf(b2.clone())]), leaf(c2.clone())]), t.clone(), 2))) ; (cat(cat(h.clone(), cat(a.clone(), b.clone())), cat(c3(a2.clone(), b2.clone(), c2.clone()), t.clone())), true) }
law!{ concat_ends_m2 [T: Clone] (x: Vec<T>, a: Vec<T>, b: Vec<T>, a2: Vec<T>, b2: Vec<T>, c2: Vec<T>, y: Vec<T>) -> (Vec<T>, bool) ; tq(&tr(Vec::new(), branch(vec![nabs(a.clone()), nabs(b.clone())]), x.clone(), 1).concat(&tr(y.clone(), branch(vec![branch(vec![leaf(a2.clone()), leaf(b2.clone())]), leaf(c2.clone())]), Vec::new(), 2))) ; (cat(cat(cat(a.clone(), b.clone()), x.clone()), cat(y.clone(), c3(a2.clone(), b2.clone(), c2.clone()))), true) }
}
pub mod shape_b3 { use super::*;
law!{ update [T: Clone] (h: Vec<T>, t: Vec<T>, a: Vec<T>, b: Vec<T>, c: Vec<T>, i: usize, x: T) -> (Vec<T>, bool) ; tq(&tr(h.clone(), branch(vec![nabs(a.clone()), nabs(b.clone()), nabs(c.clone())]), t.clone(), 1).update(i, x.clone())) ; (u(c3(h.clone(), c3(a.clone(), b.clone(), c.clone()), t.clone()), i, x.clone()), true) }
law!{ push_back [T: Clone] (h: Vec<T>, t: Vec<T>, a: Vec<T>, b: Vec<T>, c: Vec<T>, x: T) -> (Vec<T>, bool) ; tq(&tr(h.clone(), branch(vec![nabs(a.clone()), nabs(b.clone()), nabs(c.clone())]), t.clone(), 1).push_back(x.clone())) ; (cat(c3(h.clone(), c3(a.clone(), b.clone(), c.clone()), t.clone()), one(x.clone())), true) }
law!{ push_front [T: Clone] (h: Vec<T>, t: Vec<T>, a: Vec<T>, b: Vec<T>, c: Vec<T>, x: T) -> (Vec<T>, bool) ; tq(&tr(h.clone(), branch(vec![nabs(a.clone()), nabs(b.clone()), nabs(c.clone())]), t.clone(), 1).push_front(x.clone())) ; (cat(one(x.clone()), c3(h.clone(), c3(a.clone(), b.clone(), c.clone()), t.clone())), true) }
law!{ concat_leaf [T: Clone] (h: Vec<T>, a: Vec<T>, b: Vec<T>, c: Vec<T>, a2: Vec<T>, t: Vec<T>) -> (Vec<T>, bool) ; tq(&tr(h.clone(), branch(vec![nabs(a.clone()), nabs(b.clone()), nabs(c.clone())]), Vec::new(), 1).concat(&tr(Vec::new(), leaf(a2.clone()), t.clone(), 0))) ; (cat(cat(h.clone(), c3(a.clone(), b.clone(), c.clone())), cat(a2.clone(), t.clone())), true) }
law!{ concat_ends_leaf [T: Clone] (x: Vec<T>, a: Vec<T>, b: Vec<T>, c: Vec<T>, a2: Vec<T>, y: Vec<T>) -> (Vec<T>, bool) ; tq(&tr(Vec::new(), branch(vec![nabs(a.clone()), nabs(b.clone()), nabs(c.clone())]), x.clone(), 1).concat(&tr(y.clone(), leaf(a2.clone()), Vec::new(), 0))) ; (cat(cat(c3(a.clone(), b.clone(), c.clone()), x.clone()), cat(y.clone(), a2.clone())), true) }
law!{ concat_l2 [T: Clone] (h: Vec<T>, a: Vec<T>, b: Vec<T>, c: Vec<T>, a2: Vec<T>, b2: Vec<T>, t: Vec<T>) -> (Vec<T>, bool) ; tq(&tr(h.clone(), branch(vec![nabs(a.clone()), nabs(b.clone()), nabs(c.clone())]), Vec::new(), 1).concat(&tr(Vec::new(), branch(vec![leaf(a2.clone()), leaf(b2.clone())]), t.clone(), 1))) ; (cat(cat(h.clone(), c3(a.clone(), b.clone(), c.clone())), cat(cat(a2.clone(), b2.clone()), t.clone())), true) }
law!{ concat_ends_l2 [T: Clone] (x: Vec<T>, a: Vec<T>, b: Vec<T>, c: Vec<T>, a2: Vec<T>, b2: Vec<T>, y: Vec<T>) -> (Vec<T>, bool) ; tq(&tr(Vec::new(), branch(vec![nabs(a.clone()), nabs(b.clone()), nabs(c.clone())]), x.clone(), 1).concat(&tr(y.clone(), branch(vec![leaf(a2.clone()), leaf(b2.clone())]), Vec::new(), 1))) ; (cat(cat(c3(a.clone(), b.clone(), c.clone()), x.clone()), cat(y.clone(), cat(a2.clone(), b2.clone()))), true) }
law!{ concat_m2 [T: Clone] (h: Vec<T>, a: Vec<T>, b: Vec<T>, c: Vec<T>, a2: Vec<T>, b2: Vec<T>, c2: Vec<T>, t: Vec<T>) -> (Vec<T>, bool) ; tq(&tr(h.clone(), branch(vec![nabs(a.clone()), nabs(b.clone()), nabs(c.clone())]), Vec::new(), 1).concat(&tr(Vec::new(), branch(vec![branch(vec![leaf(a2.clone()), leaf(b2.clone())]), leaf(c2.clone())]), t.clone(), 2))) ; (cat(cat(h.clone(), c3(a.clone(), b.clone(), c.clone())), cat(c3(a2.clone(), b2.clone(), c2.clone()), t.clone())), true) }
law!{ concat_ends_m2 [T: Clone] (x: Vec<T>, a: Vec<T>, b: Vec<T>, c: Vec<T>, a2: Vec<T>, b2: Vec<T>, c2: Vec<T>, y: Vec<T>) -> (Vec<T>, bool) ; tq(&tr(Vec::new(), branch(vec![nabs(a.clone()), nabs(b.clone()), nabs(c.clone())]), x.clone(), 1).concat(&tr(y.clone(), branch(vec![branch(vec![leaf(a2.clone()), leaf(b2.clone())]), leaf(c2.clone())]), Vec::new(), 2))) ; (cat(cat(c3(a.clone(), b.clone(), c.clone()), x.clone()), cat(y.clone(), c3(a2.clone(), b2.clone(), c2.clone()))), true) }
}
pub mod shape_l2 { use super::*;
law!{ get [T: Clone] (h: Vec<T>, t: Vec<T>, a: Vec<T>, b: Vec<T>, i: usize) -> Option<T> ; tr(h.clone(), branch(vec![leaf(a.clone()), leaf(b.clone())]), t.clone(), 1).get(i).cloned() ; c3(h.clone(), cat(a.clone(), b.clone()), t.clone()).get(i).cloned() }
law!{ update [T: Clone] (h: Vec<T>, t: Vec<T>, a: Vec<T>, b: Vec<T>, i: usize, x: T) -> (Vec<T>, bool) ; tq(&tr(h.clone(), branch(vec![leaf(a.clone()), leaf(b.clone())]), t.clone(), 1).update(i, x.clone())) ; (u(c3(h.clone(), cat(a.clone(), b.clone()), t.clone()), i, x.clone()), true) }
law!{ push_back [T: Clone] (h: Vec<T>, t: Vec<T>, a: Vec<T>, b: Vec<T>, x: T) -> (Vec<T>, bool) ; tq(&tr(h.clone(), branch(vec![leaf(a.clone()), leaf(b.clone())]), t.clone(), 1).push_back(x.clone())) ; (cat(c3(h.clone(), cat(a.clone(), b.clone()), t.clone()), one(x.clone())), true) }
law!{ push_front [T: Clone] (h: Vec<T>, t: Vec<T>, a: Vec<T>, b: Vec<T>, x: T) -> (Vec<T>, bool) ; tq(&tr(h.clone(), branch(vec![leaf(a.clone()), leaf(b.clone())]), t.clone(), 1).push_front(x.clone())) ; (cat(one(x.clone()), c3(h.clone(), cat(a.clone(), b.clone()), t.clone())), true) }
law!{ split_at [T: Clone] (a: Vec<T>, b: Vec<T>, i: usize) -> (Vec<T>, bool, Vec<T>, bool) ; tq2(&tr(Vec::new(), branch(vec![leaf(a.clone()), leaf(b.clone())]), Vec::new(), 1).split_at(i)) ; sp(cat(a.clone(), b.clone()), i) }
law!{ pop_back [T: Clone] (a: Vec<T>, b: Vec<T>) -> Option<(Vec<T>, bool, T)> ; tqo(&tr(Vec::new(), branch(vec![leaf(a.clone()), leaf(b.clone())]), Vec::new(), 1).pop_back()) ; pb(cat(a.clone(), b.clone())) }
law!{ pop_front [T: Clone] (a: Vec<T>, b: Vec<T>) -> Option<(Vec<T>, bool, T)> ; tqo(&tr(Vec::new(), branch(vec![leaf(a.clone()), leaf(b.clone())]), Vec::new(), 1).pop_front()) ; pf(cat(a.clone(), b.clone())) }
law!{ split_at_head [T: Clone] (h: Vec<T>, a: Vec<T>, b: Vec<T>, i: usize) -> (Vec<T>, bool, Vec<T>, bool) ; tq2(&tr(h.clone(), branch(vec![leaf(a.clone()), leaf(b.clone())]), Vec::new(), 1).split_at(i)) ; sp(cat(h.clone(), cat(a.clone(), b.clone())), i) }
law!{ concat_leaf [T: Clone] (h: Vec<T>, a: Vec<T>, b: Vec<T>, a2: Vec<T>, t: Vec<T>) -> (Vec<T>, bool) ; tq(&tr(h.clone(), branch(vec![leaf(a.clone()), leaf(b.clone())]), Vec::new(), 1).concat(&tr(Vec::new(), leaf(a2.clone()), t.clone(), 0))) ; (cat(cat(h.clone(), cat(a.clone(), b.clone())), cat(a2.clone(), t.clone())), true) }
law!{ concat_ends_leaf [T: Clone] (x: Vec<T>, a: Vec<T>, b: Vec<T>, a2: Vec<T>, y: Vec<T>) -> (Vec<T>, bool) ; tq(&tr(Vec::new(), branch(vec![leaf(a.clone()), leaf(b.clone())]), x.clone(), 1).concat(&tr(y.clone(), leaf(a2.clone()), Vec::new(), 0))) ; (cat(cat(cat(a.clone(), b.clone()), x.clone()), cat(y.clone(), a2.clone())), true) }
law!{ concat_l2 [T: Clone] (h: Vec<T>, a: Vec<T>, b: Vec<T>, a2: Vec<T>, b2: Vec<T>, t: Vec<T>) -> (Vec<T>, bool) ; tq(&tr(h.clone(), branch(vec![leaf(a.clone()), leaf(b.clone())]), Vec::new(), 1).concat(&tr(Vec::new(), branch(vec![leaf(a2.clone()), leaf(b2.clone())]), t.clone(), 1))) ; (cat(cat(h.clone(), cat(a.clone(), b.clone())), cat(cat(a2.clone(), b2.clone()), t.clone())), true) }
law!{ concat_ends_l2 [T: Clone] (x: Vec<T>, a: Vec<T>, b: Vec<T>, a2: Vec<T>, b2: Vec<T>, y: Vec<T>) -> (Vec<T>, bool) ; tq(&tr(Vec::new(), branch(vec![leaf(a.clone()), leaf(b.clone())]), x.clone(), 1).concat(&tr(y.clone(), branch(vec![leaf(a2.clone()), leaf(b2.clone())]), Vec::new(), 1))) ; (cat(cat(cat(a.clone(), b.clone()), x.clone()), cat(y.clone(), cat(a2.clone(), b2.clone()))), true) }
law!{ concat_m2 [T: Clone] (h: Vec<T>, a: Vec<T>, b: Vec<T>, a2: Vec<T>, b2: Vec<T>, c2: Vec<T>, t: Vec<T>) -> (Vec<T>, bool) ; tq(&tr(h.clone(), branch(vec![leaf(a.clone()), leaf(b.clone())]), Vec::new(), 1).concat(&tr(Vec::new(), branch(vec![branch(vec![leaf(a2.clone()), leaf(b2.clone())]), leaf(c2.clone())]), t.clone(), 2))) ; (cat(cat(h.clone(), cat(a.clone(), b.clone())), cat(c3(a2.clone(), b2.clone(), c2.clone()), t.clone())), true) }
law!{ concat_ends_m2 [T: Clone] (x: Vec<T>, a: Vec<T>, b: Vec<T>, a2: Vec<T>, b2: Vec<T>, c2: Vec<T>, y: Vec<T>) -> (Vec<T>, bool) ; tq(&tr(Vec::new(), branch(vec![leaf(a.clone()), leaf(b.clone())]), x.clone(), 1).concat(&tr(y.clone(), branch(vec![branch(vec![leaf(a2.clone()), leaf(b2.clone())]), leaf(c2.clone())]), Vec::new(), 2))) ; (cat(cat(cat(a.clone(), b.clone()), x.clone()), cat(y.clone(), c3(a2.clone(), b2.clone(), c2.clone()))), true) }
}
pub mod shape_l3 { use super::*;
law!{ get [T: Clone] (h: Vec<T>, t: Vec<T>, a: Vec<T>, b: Vec<T>, c: Vec<T>, i: usize) -> Option<T> ; tr(h.clone(), branch(vec![leaf(a.clone()), leaf(b.clone()), leaf(c.clone())]), t.clone(), 1).get(i).cloned() ; c3(h.clone(), c3(a.clone(), b.clone(), c.clone()), t.clone()).get(i).cloned() }
law!{ update [T: Clone] (h: Vec<T>, t: Vec<T>, a: Vec<T>, b: Vec<T>, c: Vec<T>, i: usize, x: T) -> (Vec<T>, bool) ; tq(&tr(h.clone(), branch(vec![leaf(a.clone()), leaf(b.clone()), leaf(c.clone())]), t.clone(), 1).update(i, x.clone())) ; (u(c3(h.clone(), c3(a.clone(), b.clone(), c.clone()), t.clone()), i, x.clone()), true) }
law!{ push_back [T: Clone] (h: Vec<T>, t: Vec<T>, a: Vec<T>, b: Vec<T>, c: Vec<T>, x: T) -> (Vec<T>, bool) ; tq(&tr(h.clone(), branch(vec![leaf(a.clone()), leaf(b.clone()), leaf(c.clone())]), t.clone(), 1).push_back(x.clone())) ; (cat(c3(h.clone(), c3(a.clone(), b.clone(), c.clone()), t.clone()), one(x.clone())), true) }
law!{ push_front [T: Clone] (h: Vec<T>, t: Vec<T>, a: Vec<T>, b: Vec<T>, c: Vec<T>, x: T) -> (Vec<T>, bool) ; tq(&tr(h.clone(), branch(vec![leaf(a.clone()), leaf(b.clone()), leaf(c.clone())]), t.clone(), 1).push_front(x.clone())) ; (cat(one(x.clone()), c3(h.clone(), c3(a.clone(), b.clone(), c.clone()), t.clone())), true) }
law!{ split_at [T: Clone] (a: Vec<T>, b: Vec<T>, c: Vec<T>, i: usize) -> (Vec<T>, bool, Vec<T>, bool) ; tq2(&tr(Vec::new(), branch(vec![leaf(a.clone()), leaf(b.clone()), leaf(c.clone())]), Vec::new(), 1).split_at(i)) ; sp(c3(a.clone(), b.clone(), c.clone()), i) }
law!{ pop_back [T: Clone] (a: Vec<T>, b: Vec<T>, c: Vec<T>) -> Option<(Vec<T>, bool, T)> ; tqo(&tr(Vec::new(), branch(vec![leaf(a.clone()), leaf(b.clone()), leaf(c.clone())]), Vec::new(), 1).pop_back()) ; pb(c3(a.clone(), b.clone(), c.clone())) }
law!{ pop_front [T: Clone] (a: Vec<T>, b: Vec<T>, c: Vec<T>) -> Option<(Vec<T>, bool, T)> ; tqo(&tr(Vec::new(), branch(vec![leaf(a.clone()), leaf(b.clone()), leaf(c.clone())]), Vec::new(), 1).pop_front()) ; pf(c3(a.clone(), b.clone(), c.clone())) }
law!{ split_at_head [T: Clone] (h: Vec<T>, a: Vec<T>, b: Vec<T>, c: Vec<T>, i: usize) -> (Vec<T>, bool, Vec<T>, bool) ; tq2(&tr(h.clone(), branch(vec![leaf(a.clone()), leaf(b.clone()), leaf(c.clone())]), Vec::new(), 1).split_at(i)) ; sp(cat(h.clone(), c3(a.clone(), b.clone(), c.clone())), i) }
law!{ concat_leaf [T: Clone] (h: Vec<T>, a: Vec<T>, b: Vec<T>, c: Vec<T>, a2: Vec<T>, t: Vec<T>) -> (Vec<T>, bool) ; tq(&tr(h.clone(), branch(vec![leaf(a.clone()), leaf(b.clone()), leaf(c.clone())]), Vec::new(), 1).concat(&tr(Vec::new(), leaf(a2.clone()), t.clone(), 0))) ; (cat(cat(h.clone(), c3(a.clone(), b.clone(), c.clone())), cat(a2.clone(), t.clone())), true) }
law!{ concat_ends_leaf [T: Clone] (x: Vec<T>, a: Vec<T>, b: Vec<T>, c: Vec<T>, a2: Vec<T>, y: Vec<T>) -> (Vec<T>, bool) ; tq(&tr(Vec::new(), branch(vec![leaf(a.clone()), leaf(b.clone()), leaf(c.clone())]), x.clone(), 1).concat(&tr(y.clone(), leaf(a2.clone()), Vec::new(), 0))) ; (cat(cat(c3(a.clone(), b.clone(), c.clone()), x.clone()), cat(y.clone(), a2.clone())), true) }
law!{ concat_l2 [T: Clone] (h: Vec<T>, a: Vec<T>, b: Vec<T>, c: Vec<T>, a2: Vec<T>, b2: Vec<T>, t: Vec<T>) -> (Vec<T>, bool) ; tq(&tr(h.clone(), branch(vec![leaf(a.clone()), leaf(b.clone()), leaf(c.clone())]), Vec::new(), 1).concat(&tr(Vec::new(), branch(vec![leaf(a2.clone()), leaf(b2.clone())]), t.clone(), 1))) ; (cat(cat(h.clone(), c3(a.clone(), b.clone(), c.clone())), cat(cat(a2.clone(), b2.clone()), t.clone())), true) }
law!{ concat_ends_l2 [T: Clone] (x: Vec<T>, a: Vec<T>, b: Vec<T>, c: Vec<T>, a2: Vec<T>, b2: Vec<T>, y: Vec<T>) -> (Vec<T>, bool) ; tq(&tr(Vec::new(), branch(vec![leaf(a.clone()), leaf(b.clone()), leaf(c.clone())]), x.clone(), 1).concat(&tr(y.clone(), branch(vec![leaf(a2.clone()), leaf(b2.clone())]), Vec::new(), 1))) ; (cat(cat(c3(a.clone(), b.clone(), c.clone()), x.clone()), cat(y.clone(), cat(a2.clone(), b2.clone()))), true) }
law!{ concat_m2 [T: Clone] (h: Vec<T>, a: Vec<T>, b: Vec<T>, c: Vec<T>, a2: Vec<T>, b2: Vec<T>, c2: Vec<T>, t: Vec<T>) -> (Vec<T>, bool) ; tq(&tr(h.clone(), branch(vec![leaf(a.clone()), leaf(b.clone()), leaf(c.clone())]), Vec::new(), 1).concat(&tr(Vec::new(), branch(vec![branch(vec![leaf(a2.clone()), leaf(b2.clone())]), leaf(c2.clone())]), t.clone(), 2))) ; (cat(cat(h.clone(), c3(a.clone(), b.clone(), c.clone())), cat(c3(a2.clone(), b2.clone(), c2.clone()), t.clone())), true) }
law!{ concat_ends_m2 [T: Clone] (x: Vec<T>, a: Vec<T>, b: Vec<T>, c: Vec<T>, a2: Vec<T>, b2: Vec<T>, c2: Vec<T>, y: Vec<T>) -> (Vec<T>, bool) ; tq(&tr(Vec::new(), branch(vec![leaf(a.clone()), leaf(b.clone()), leaf(c.clone())]), x.clone(), 1).concat(&tr(y.clone(), branch(vec![branch(vec![leaf(a2.clone()), leaf(b2.clone())]), leaf(c2.clone())]), Vec::new(), 2))) ; (cat(cat(c3(a.clone(), b.clone(), c.clone()), x.clone()), cat(y.clone(), c3(a2.clone(), b2.clone(), c2.clone()))), true) }
}
pub mod shape_m2 { use super::*;
law!{ get [T: Clone] (h: Vec<T>, t: Vec<T>, a: Vec<T>, b: Vec<T>, c: Vec<T>, i: usize) -> Option<T> ; tr(h.clone(), branch(vec![branch(vec![leaf(a.clone()), leaf(b.clone())]), leaf(c.clone())]), t.clone(), 2).get(i).cloned() ; c3(h.clone(), c3(a.clone(), b.clone(), c.clone()), t.clone()).get(i).cloned() }
law!{ update [T: Clone] (h: Vec<T>, t: Vec<T>, a: Vec<T>, b: Vec<T>, c: Vec<T>, i: usize, x: T) -> (Vec<T>, bool) ; tq(&tr(h.clone(), branch(vec![branch(vec![leaf(a.clone()), leaf(b.clone())]), leaf(c.clone())]), t.clone(), 2).update(i, x.clone())) ; (u(c3(h.clone(), c3(a.clone(), b.clone(), c.clone()), t.clone()), i, x.clone()), true) }
law!{ push_back [T: Clone] (h: Vec<T>, t: Vec<T>, a: Vec<T>, b: Vec<T>, c: Vec<T>, x: T) -> (Vec<T>, bool) ; tq(&tr(h.clone(), branch(vec![branch(vec![leaf(a.clone()), leaf(b.clone())]), leaf(c.clone())]), t.clone(), 2).push_back(x.clone())) ; (cat(c3(h.clone(), c3(a.clone(), b.clone(), c.clone()), t.clone()), one(x.clone())), true) }
law!{ push_front [T: Clone] (h: Vec<T>, t: Vec<T>, a: Vec<T>, b: Vec<T>, c: Vec<T>, x: T) -> (Vec<T>, bool) ; tq(&tr(h.clone(), branch(vec![branch(vec![leaf(a.clone()), leaf(b.clone())]), leaf(c.clone())]), t.clone(), 2).push_front(x.clone())) ; (cat(one(x.clone()), c3(h.clone(), c3(a.clone(), b.clone(), c.clone()), t.clone())), true) }
law!{ split_at [T: Clone] (a: Vec<T>, b: Vec<T>, c: Vec<T>, i: usize) -> (Vec<T>, bool, Vec<T>, bool) ; tq2(&tr(Vec::new(), branch(vec![branch(vec![leaf(a.clone()), leaf(b.clone())]), leaf(c.clone())]), Vec::new(), 2).split_at(i)) ; sp(c3(a.clone(), b.clone(), c.clone()), i) }
law!{ pop_back [T: Clone] (a: Vec<T>, b: Vec<T>, c: Vec<T>) -> Option<(Vec<T>, bool, T)> ; tqo(&tr(Vec::new(), branch(vec![branch(vec![leaf(a.clone()), leaf(b.clone())]), leaf(c.clone())]), Vec::new(), 2).pop_back()) ; pb(c3(a.clone(), b.clone(), c.clone())) }
law!{ pop_front [T: Clone] (a: Vec<T>, b: Vec<T>, c: Vec<T>) -> Option<(Vec<T>, bool, T)> ; tqo(&tr(Vec::new(), branch(vec![branch(vec![leaf(a.clone()), leaf(b.clone())]), leaf(c.clone())]), Vec::new(), 2).pop_front()) ; pf(c3(a.clone(), b.clone(), c.clone())) }
law!{ split_at_head [T: Clone] (h: Vec<T>, a: Vec<T>, b: Vec<T>, c: Vec<T>, i: usize) -> (Vec<T>, bool, Vec<T>, bool) ; tq2(&tr(h.clone(), branch(vec![branch(vec![leaf(a.clone()), leaf(b.clone())]), leaf(c.clone())]), Vec::new(), 2).split_at(i)) ; sp(cat(h.clone(), c3(a.clone(), b.clone(), c.clone())), i) }
law!{ concat_leaf [T: Clone] (h: Vec<T>, a: Vec<T>, b: Vec<T>, c: Vec<T>, a2: Vec<T>, t: Vec<T>) -> (Vec<T>, bool) ; tq(&tr(h.clone(), branch(vec![branch(vec![leaf(a.clone()), leaf(b.clone())]), leaf(c.clone())]), Vec::new(), 2).concat(&tr(Vec::new(), leaf(a2.clone()), t.clone(), 0))) ; (cat(cat(h.clone(), c3(a.clone(), b.clone(), c.clone())), cat(a2.clone(), t.clone())), true) }
law!{ concat_ends_leaf [T: Clone] (x: Vec<T>, a: Vec<T>, b: Vec<T>, c: Vec<T>, a2: Vec<T>, y: Vec<T>) -> (Vec<T>, bool) ; tq(&tr(Vec::new(), branch(vec![branch(vec![leaf(a.clone()), leaf(b.clone())]), leaf(c.clone())]), x.clone(), 2).concat(&tr(y.clone(), leaf(a2.clone()), Vec::new(), 0))) ; (cat(cat(c3(a.clone(), b.clone(), c.clone()), x.clone()), cat(y.clone(), a2.clone())), true) }
law!{ concat_l2 [T: Clone] (h: Vec<T>, a: Vec<T>, b: Vec<T>, c: Vec<T>, a2: Vec<T>, b2: Vec<T>, t: Vec<T>) -> (Vec<T>, bool) ; tq(&tr(h.clone(), branch(vec![branch(vec![leaf(a.clone()), leaf(b.clone())]), leaf(c.clone())]), Vec::new(), 2).concat(&tr(Vec::new(), branch(vec![leaf(a2.clone()), leaf(b2.clone())]), t.clone(), 1))) ; (cat(cat(h.clone(), c3(a.clone(), b.clone(), c.clone())), cat(cat(a2.clone(), b2.clone()), t.clone())), true) }
law!{ concat_ends_l2 [T: Clone] (x: Vec<T>, a: Vec<T>, b: Vec<T>, c: Vec<T>, a2: Vec<T>, b2: Vec<T>, y: Vec<T>) -> (Vec<T>, bool) ; tq(&tr(Vec::new(), branch(vec![branch(vec![leaf(a.clone()), leaf(b.clone())]), leaf(c.clone())]), x.clone(), 2).concat(&tr(y.clone(), branch(vec![leaf(a2.clone()), leaf(b2.clone())]), Vec::new(), 1))) ; (cat(cat(c3(a.clone(), b.clone(), c.clone()), x.clone()), cat(y.clone(), cat(a2.clone(), b2.clone()))), true) }
law!{ concat_m2 [T: Clone] (h: Vec<T>, a: Vec<T>, b: Vec<T>, c: Vec<T>, a2: Vec<T>, b2: Vec<T>, c2: Vec<T>, t: Vec<T>) -> (Vec<T>, bool) ; tq(&tr(h.clone(), branch(vec![branch(vec![leaf(a.clone()), leaf(b.clone())]), leaf(c.clone())]), Vec::new(), 2).concat(&tr(Vec::new(), branch(vec![branch(vec![leaf(a2.clone()), leaf(b2.clone())]), leaf(c2.clone())]), t.clone(), 2))) ; (cat(cat(h.clone(), c3(a.clone(), b.clone(), c.clone())), cat(c3(a2.clone(), b2.clone(), c2.clone()), t.clone())), true) }
law!{ concat_ends_m2 [T: Clone] (x: Vec<T>, a: Vec<T>, b: Vec<T>, c: Vec<T>, a2: Vec<T>, b2: Vec<T>, c2: Vec<T>, y: Vec<T>) -> (Vec<T>, bool) ; tq(&tr(Vec::new(), branch(vec![branch(vec![leaf(a.clone()), leaf(b.clone())]), leaf(c.clone())]), x.clone(), 2).concat(&tr(y.clone(), branch(vec![branch(vec![leaf(a2.clone()), leaf(b2.clone())]), leaf(c2.clone())]), Vec::new(), 2))) ; (cat(cat(c3(a.clone(), b.clone(), c.clone()), x.clone()), cat(y.clone(), c3(a2.clone(), b2.clone(), c2.clone()))), true) }
}
pub mod shape_n2 { use super::*;
law!{ get [T: Clone] (h: Vec<T>, t: Vec<T>, a: Vec<T>, b: Vec<T>, c: Vec<T>, i: usize) -> Option<T> ; tr(h.clone(), branch(vec![leaf(a.clone()), branch(vec![leaf(b.clone()), leaf(c.clone())])]), t.clone(), 2).get(i).cloned() ; c3(h.clone(), c3(a.clone(), b.clone(), c.clone()), t.clone()).get(i).cloned() }
law!{ update [T: Clone] (h: Vec<T>, t: Vec<T>, a: Vec<T>, b: Vec<T>, c: Vec<T>, i: usize, x: T) -> (Vec<T>, bool) ; tq(&tr(h.clone(), branch(vec![leaf(a.clone()), branch(vec![leaf(b.clone()), leaf(c.clone())])]), t.clone(), 2).update(i, x.clone())) ; (u(c3(h.clone(), c3(a.clone(), b.clone(), c.clone()), t.clone()), i, x.clone()), true) }
law!{ push_back [T: Clone] (h: Vec<T>, t: Vec<T>, a: Vec<T>, b: Vec<T>, c: Vec<T>, x: T) -> (Vec<T>, bool) ; tq(&tr(h.clone(), branch(vec![leaf(a.clone()), branch(vec![leaf(b.clone()), leaf(c.clone())])]), t.clone(), 2).push_back(x.clone())) ; (cat(c3(h.clone(), c3(a.clone(), b.clone(), c.clone()), t.clone()), one(x.clone())), true) }
law!{ push_front [T: Clone] (h: Vec<T>, t: Vec<T>, a: Vec<T>, b: Vec<T>, c: Vec<T>, x: T) -> (Vec<T>, bool) ; tq(&tr(h.clone(), branch(vec![leaf(a.clone()), branch(vec![leaf(b.clone()), leaf(c.clone())])]), t.clone(), 2).push_front(x.clone())) ; (cat(one(x.clone()), c3(h.clone(), c3(a.clone(), b.clone(), c.clone()), t.clone())), true) }
law!{ split_at [T: Clone] (a: Vec<T>, b: Vec<T>, c: Vec<T>, i: usize) -> (Vec<T>, bool, Vec<T>, bool) ; tq2(&tr(Vec::new(), branch(vec![leaf(a.clone()), branch(vec![leaf(b.clone()), leaf(c.clone())])]), Vec::new(), 2).split_at(i)) ; sp(c3(a.clone(), b.clone(), c.clone()), i) }
law!{ pop_back [T: Clone] (a: Vec<T>, b: Vec<T>, c: Vec<T>) -> Option<(Vec<T>, bool, T)> ; tqo(&tr(Vec::new(), branch(vec![leaf(a.clone()), branch(vec![leaf(b.clone()), leaf(c.clone())])]), Vec::new(), 2).pop_back()) ; pb(c3(a.clone(), b.clone(), c.clone())) }
law!{ pop_front [T: Clone] (a: Vec<T>, b: Vec<T>, c: Vec<T>) -> Option<(Vec<T>, bool, T)> ; tqo(&tr(Vec::new(), branch(vec![leaf(a.clone()), branch(vec![leaf(b.clone()), leaf(c.clone())])]), Vec::new(), 2).pop_front()) ; pf(c3(a.clone(), b.clone(), c.clone())) }
law!{ split_at_head [T: Clone] (h: Vec<T>, a: Vec<T>, b: Vec<T>, c: Vec<T>, i: usize) -> (Vec<T>, bool, Vec<T>, bool) ; tq2(&tr(h.clone(), branch(vec![leaf(a.clone()), branch(vec![leaf(b.clone()), leaf(c.clone())])]), Vec::new(), 2).split_at(i)) ; sp(cat(h.clone(), c3(a.clone(), b.clone(), c.clone())), i) }
law!{ concat_leaf [T: Clone] (h: Vec<T>, a: Vec<T>, b: Vec<T>, c: Vec<T>, a2: Vec<T>, t: Vec<T>) -> (Vec<T>, bool) ; tq(&tr(h.clone(), branch(vec![leaf(a.clone()), branch(vec![leaf(b.clone()), leaf(c.clone())])]), Vec::new(), 2).concat(&tr(Vec::new(), leaf(a2.clone()), t.clone(), 0))) ; (cat(cat(h.clone(), c3(a.clone(), b.clone(), c.clone())), cat(a2.clone(), t.clone())), true) }
law!{ concat_ends_leaf [T: Clone] (x: Vec<T>, a: Vec<T>, b: Vec<T>, c: Vec<T>, a2: Vec<T>, y: Vec<T>) -> (Vec<T>, bool) ; tq(&tr(Vec::new(), branch(vec![leaf(a.clone()), branch(vec![leaf(b.clone()), leaf(c.clone())])]), x.clone(), 2).concat(&tr(y.clone(), leaf(a2.clone()), Vec::new(), 0))) ; (cat(cat(c3(a.clone(), b.clone(), c.clone()), x.clone()), cat(y.clone(), a2.clone())), true) }
law!{ concat_l2 [T: Clone] (h: Vec<T>, a: Vec<T>, b: Vec<T>, c: Vec<T>, a2: Vec<T>, b2: Vec<T>, t: Vec<T>) -> (Vec<T>, bool) ; tq(&tr(h.clone(), branch(vec![leaf(a.clone()), branch(vec![leaf(b.clone()), leaf(c.clone())])]), Vec::new(), 2).concat(&tr(Vec::new(), branch(vec![leaf(a2.clone()), leaf(b2.clone())]), t.clone(), 1))) ; (cat(cat(h.clone(), c3(a.clone(), b.clone(), c.clone())), cat(cat(a2.clone(), b2.clone()), t.clone())), true) }
law!{ concat_ends_l2 [T: Clone] (x: Vec<T>, a: Vec<T>, b: Vec<T>, c: Vec<T>, a2: Vec<T>, b2: Vec<T>, y: Vec<T>) -> (Vec<T>, bool) ; tq(&tr(Vec::new(), branch(vec![leaf(a.clone()), branch(vec![leaf(b.clone()), leaf(c.clone())])]), x.clone(), 2).concat(&tr(y.clone(), branch(vec![leaf(a2.clone()), leaf(b2.clone())]), Vec::new(), 1))) ; (cat(cat(c3(a.clone(), b.clone(), c.clone()), x.clone()), cat(y.clone(), cat(a2.clone(), b2.clone()))), true) }
law!{ concat_m2 [T: Clone] (h: Vec<T>, a: Vec<T>, b: Vec<T>, c: Vec<T>, a2: Vec<T>, b2: Vec<T>, c2: Vec<T>, t: Vec<T>) -> (Vec<T>, bool) ; tq(&tr(h.clone(), branch(vec![leaf(a.clone()), branch(vec![leaf(b.clone()), leaf(c.clone())])]), Vec::new(), 2).concat(&tr(Vec::new(), branch(vec![branch(vec![leaf(a2.clone()), leaf(b2.clone())]), leaf(c2.clone())]), t.clone(), 2))) ; (cat(cat(h.clone(), c3(a.clone(), b.clone(), c.clone())), cat(c3(a2.clone(), b2.clone(), c2.clone()), t.clone())), true) }
law!{ concat_ends_m2 [T: Clone] (x: Vec<T>, a: Vec<T>, b: Vec<T>, c: Vec<T>, a2: Vec<T>, b2: Vec<T>, c2: Vec<T>, y: Vec<T>) -> (Vec<T>, bool) ; tq(&tr(Vec::new(), branch(vec![leaf(a.clone()), branch(vec![leaf(b.clone()), leaf(c.clone())])]), x.clone(), 2).concat(&tr(y.clone(), branch(vec![branch(vec![leaf(a2.clone()), leaf(b2.clone())]), leaf(c2.clone())]), Vec::new(), 2))) ; (cat(cat(c3(a.clone(), b.clone(), c.clone()), x.clone()), cat(y.clone(), c3(a2.clone(), b2.clone(), c2.clone()))), true) }
}
pub mod node { use super::*;
law!{ update_leaf [T: Clone] (a: Vec<T>, i: usize, x: T) -> (Vec<T>, bool) ; nq(&leaf(a.clone()).update(i, x.clone())) ; (u(a.clone(), i, x.clone()), true) }
law!{ size_leaf [T: Clone] (a: Vec<T>) -> usize ; leaf(a.clone()).calculate_size() ; a.clone().len() }
law!{ push_leaf_leaf [T: Clone] (a: Vec<T>, z: Vec<T>) -> (Vec<T>, bool) ; nq(&leaf(a.clone()).push_leaf(Arc::new(leaf(z.clone())))) ; (cat(a.clone(), z.clone()), true) }
law!{ push_front_leaf_leaf [T: Clone] (a: Vec<T>, z: Vec<T>) -> (Vec<T>, bool) ; nq(&leaf(a.clone()).push_front_leaf(Arc::new(leaf(z.clone())))) ; (cat(z.clone(), a.clone()), true) }
law!{ update_b1 [T: Clone] (a: Vec<T>, i: usize, x: T) -> (Vec<T>, bool) ; nq(&branch(vec![nabs(a.clone())]).update(i, x.clone())) ; (u(a.clone(), i, x.clone()), true) }
law!{ size_b1 [T: Clone] (a: Vec<T>) -> usize ; branch(vec![nabs(a.clone())]).calculate_size() ; a.clone().len() }
law!{ push_leaf_b1 [T: Clone] (a: Vec<T>, z: Vec<T>) -> (Vec<T>, bool) ; nq(&branch(vec![nabs(a.clone())]).push_leaf(Arc::new(leaf(z.clone())))) ; (cat(a.clone(), z.clone()), true) }
law!{ push_front_leaf_b1 [T: Clone] (a: Vec<T>, z: Vec<T>) -> (Vec<T>, bool) ; nq(&branch(vec![nabs(a.clone())]).push_front_leaf(Arc::new(leaf(z.clone())))) ; (cat(z.clone(), a.clone()), true) }
law!{ update_b2 [T: Clone] (a: Vec<T>, b: Vec<T>, i: usize, x: T) -> (Vec<T>, bool) ; nq(&branch(vec![nabs(a.clone()), nabs(b.clone())]).update(i, x.clone())) ; (u(cat(a.clone(), b.clone()), i, x.clone()), true) }
law!{ size_b2 [T: Clone] (a: Vec<T>, b: Vec<T>) -> usize ; branch(vec![nabs(a.clone()), nabs(b.clone())]).calculate_size() ; cat(a.clone(), b.clone()).len() }
law!{ push_leaf_b2 [T: Clone] (a: Vec<T>, b: Vec<T>, z: Vec<T>) -> (Vec<T>, bool) ; nq(&branch(vec![nabs(a.clone()), nabs(b.clone())]).push_leaf(Arc::new(leaf(z.clone())))) ; (cat(cat(a.clone(), b.clone()), z.clone()), true) }
law!{ push_front_leaf_b2 [T: Clone] (a: Vec<T>, b: Vec<T>, z: Vec<T>) -> (Vec<T>, bool) ; nq(&branch(vec![nabs(a.clone()), nabs(b.clone())]).push_front_leaf(Arc::new(leaf(z.clone())))) ; (cat(z.clone(), cat(a.clone(), b.clone())), true) }
law!{ update_b3 [T: Clone] (a: Vec<T>, b: Vec<T>, c: Vec<T>, i: usize, x: T) -> (Vec<T>, bool) ; nq(&branch(vec![nabs(a.clone()), nabs(b.clone()), nabs(c.clone())]).update(i, x.clone())) ; (u(c3(a.clone(), b.clone(), c.clone()), i, x.clone()), true) }
law!{ size_b3 [T: Clone] (a: Vec<T>, b: Vec<T>, c: Vec<T>) -> usize ; branch(vec![nabs(a.clone()), nabs(b.clone()), nabs(c.clone())]).calculate_size() ; c3(a.clone(), b.clone(), c.clone()).len() }
law!{ push_leaf_b3 [T: Clone] (a: Vec<T>, b: Vec<T>, c: Vec<T>, z: Vec<T>) -> (Vec<T>, bool) ; nq(&branch(vec![nabs(a.clone()), nabs(b.clone()), nabs(c.clone())]).push_leaf(Arc::new(leaf(z.clone())))) ; (cat(c3(a.clone(), b.clone(), c.clone()), z.clone()), true) }
law!{ push_front_leaf_b3 [T: Clone] (a: Vec<T>, b: Vec<T>, c: Vec<T>, z: Vec<T>) -> (Vec<T>, bool) ; nq(&branch(vec![nabs(a.clone()), nabs(b.clone()), nabs(c.clone())]).push_front_leaf(Arc::new(leaf(z.clone())))) ; (cat(z.clone(), c3(a.clone(), b.clone(), c.clone())), true) }
law!{ update_l2 [T: Clone] (a: Vec<T>, b: Vec<T>, i: usize, x: T) -> (Vec<T>, bool) ; nq(&branch(vec![leaf(a.clone()), leaf(b.clone())]).update(i, x.clone())) ; (u(cat(a.clone(), b.clone()), i, x.clone()), true) }
law!{ size_l2 [T: Clone] (a: Vec<T>, b: Vec<T>) -> usize ; branch(vec![leaf(a.clone()), leaf(b.clone())]).calculate_size() ; cat(a.clone(), b.clone()).len() }
law!{ push_leaf_l2 [T: Clone] (a: Vec<T>, b: Vec<T>, z: Vec<T>) -> (Vec<T>, bool) ; nq(&branch(vec![leaf(a.clone()), leaf(b.clone())]).push_leaf(Arc::new(leaf(z.clone())))) ; (cat(cat(a.clone(), b.clone()), z.clone()), true) }
law!{ push_front_leaf_l2 [T: Clone] (a: Vec<T>, b: Vec<T>, z: Vec<T>) -> (Vec<T>, bool) ; nq(&branch(vec![leaf(a.clone()), leaf(b.clone())]).push_front_leaf(Arc::new(leaf(z.clone())))) ; (cat(z.clone(), cat(a.clone(), b.clone())), true) }
law!{ update_l3 [T: Clone] (a: Vec<T>, b: Vec<T>, c: Vec<T>, i: usize, x: T) -> (Vec<T>, bool) ; nq(&branch(vec![leaf(a.clone()), leaf(b.clone()), leaf(c.clone())]).update(i, x.clone())) ; (u(c3(a.clone(), b.clone(), c.clone()), i, x.clone()), true) }
law!{ size_l3 [T: Clone] (a: Vec<T>, b: Vec<T>, c: Vec<T>) -> usize ; branch(vec![leaf(a.clone()), leaf(b.clone()), leaf(c.clone())]).calculate_size() ; c3(a.clone(), b.clone(), c.clone()).len() }
law!{ push_leaf_l3 [T: Clone] (a: Vec<T>, b: Vec<T>, c: Vec<T>, z: Vec<T>) -> (Vec<T>, bool) ; nq(&branch(vec![leaf(a.clone()), leaf(b.clone()), leaf(c.clone())]).push_leaf(Arc::new(leaf(z.clone())))) ; (cat(c3(a.clone(), b.clone(), c.clone()), z.clone()), true) }
law!{ push_front_leaf_l3 [T: Clone] (a: Vec<T>, b: Vec<T>, c: Vec<T>, z: Vec<T>) -> (Vec<T>, bool) ; nq(&branch(vec![leaf(a.clone()), leaf(b.clone()), leaf(c.clone())]).push_front_leaf(Arc::new(leaf(z.clone())))) ; (cat(z.clone(), c3(a.clone(), b.clone(), c.clone())), true) }
law!{ update_m2 [T: Clone] (a: Vec<T>, b: Vec<T>, c: Vec<T>, i: usize, x: T) -> (Vec<T>, bool) ; nq(&branch(vec![branch(vec![leaf(a.clone()), leaf(b.clone())]), leaf(c.clone())]).update(i, x.clone())) ; (u(c3(a.clone(), b.clone(), c.clone()), i, x.clone()), true) }
law!{ size_m2 [T: Clone] (a: Vec<T>, b: Vec<T>, c: Vec<T>) -> usize ; branch(vec![branch(vec![leaf(a.clone()), leaf(b.clone())]), leaf(c.clone())]).calculate_size() ; c3(a.clone(), b.clone(), c.clone()).len() }
law!{ push_leaf_m2 [T: Clone] (a: Vec<T>, b: Vec<T>, c: Vec<T>, z: Vec<T>) -> (Vec<T>, bool) ; nq(&branch(vec![branch(vec![leaf(a.clone()), leaf(b.clone())]), leaf(c.clone())]).push_leaf(Arc::new(leaf(z.clone())))) ; (cat(c3(a.clone(), b.clone(), c.clone()), z.clone()), true) }
law!{ push_front_leaf_m2 [T: Clone] (a: Vec<T>, b: Vec<T>, c: Vec<T>, z: Vec<T>) -> (Vec<T>, bool) ; nq(&branch(vec![branch(vec![leaf(a.clone()), leaf(b.clone())]), leaf(c.clone())]).push_front_leaf(Arc::new(leaf(z.clone())))) ; (cat(z.clone(), c3(a.clone(), b.clone(), c.clone())), true) }
law!{ update_n2 [T: Clone] (a: Vec<T>, b: Vec<T>, c: Vec<T>, i: usize, x: T) -> (Vec<T>, bool) ; nq(&branch(vec![leaf(a.clone()), branch(vec![leaf(b.clone()), leaf(c.clone())])]).update(i, x.clone())) ; (u(c3(a.clone(), b.clone(), c.clone()), i, x.clone()), true) }
law!{ size_n2 [T: Clone] (a: Vec<T>, b: Vec<T>, c: Vec<T>) -> usize ; branch(vec![leaf(a.clone()), branch(vec![leaf(b.clone()), leaf(c.clone())])]).calculate_size() ; c3(a.clone(), b.clone(), c.clone()).len() }
law!{ push_leaf_n2 [T: Clone] (a: Vec<T>, b: Vec<T>, c: Vec<T>, z: Vec<T>) -> (Vec<T>, bool) ; nq(&branch(vec![leaf(a.clone()), branch(vec![leaf(b.clone()), leaf(c.clone())])]).push_leaf(Arc::new(leaf(z.clone())))) ; (cat(c3(a.clone(), b.clone(), c.clone()), z.clone()), true) }
law!{ push_front_leaf_n2 [T: Clone] (a: Vec<T>, b: Vec<T>, c: Vec<T>, z: Vec<T>) -> (Vec<T>, bool) ; nq(&branch(vec![leaf(a.clone()), branch(vec![leaf(b.clone()), leaf(c.clone())])]).push_front_leaf(Arc::new(leaf(z.clone())))) ; (cat(z.clone(), c3(a.clone(), b.clone(), c.clone())), true) }
law!{ push_leaf_wide [T: Clone] (cs: Vec<Vec<T>>, z: Vec<T>) -> (Vec<T>, bool) ; nq(&branch(cs.iter().map(|c| nabs(c.clone())).collect()).push_leaf(Arc::new(leaf(z.clone())))) ; (cat(cs.concat(), z.clone()), true) }
law!{ push_front_leaf_wide [T: Clone] (cs: Vec<Vec<T>>, z: Vec<T>) -> (Vec<T>, bool) ; nq(&branch(cs.iter().map(|c| nabs(c.clone())).collect()).push_front_leaf(Arc::new(leaf(z.clone())))) ; (cat(z.clone(), cs.concat()), true) }
}
pub mod seq { use super::*;
law!{ new [T: Clone] (_w: Vec<T>) -> (Vec<T>, bool) ; sq(&PersistentVector::<T>::new()) ; (Vec::new(), true) }
law!{ default [T: Clone] (_w: Vec<T>) -> (Vec<T>, bool) ; sq(&PersistentVector::<T>::default()) ; (Vec::new(), true) }
law!{ unit [T: Clone] (x: T) -> (Vec<T>, bool) ; sq(&PersistentVector::unit(x.clone())) ; (one(x.clone()), true) }
law!{ len [T: Clone] (w: Vec<T>) -> usize ; pabs(w.clone()).len() ; w.len() }
law!{ is_empty [T: Clone] (w: Vec<T>) -> bool ; pabs(w.clone()).is_empty() ; w.is_empty() }
law!{ from_slice [T: Clone] (w: Vec<T>) -> (Vec<T>, bool) ; sq(&PersistentVector::from_slice(&w)) ; (w.clone(), true) }
law!{ from_slice_with_cache_policy [T: Clone] (w: Vec<T>) -> (Vec<T>, bool) ; sq(&PersistentVector::from_slice_with_cache_policy(&w, ())) ; (w.clone(), true) }
law!{ with_cache_policy [T: Clone] (_w: Vec<T>) -> (Vec<T>, bool) ; sq(&PersistentVector::<T>::with_cache_policy(())) ; (Vec::new(), true) }
law!{ from_iter [T: Clone] (w: Vec<T>) -> (Vec<T>, bool) ; sq(&PersistentVector::from_iter(w.clone())) ; (w.clone(), true) }
law!{ from_iter_any [T: Clone, IT: Iterator<Item = T> + Clone] (w: IT) -> (Vec<T>, bool) ; sq(&PersistentVector::from_iter(w.clone())) ; (w.collect(), true) }
law!{ from_vec [T: Clone] (w: Vec<T>) -> (Vec<T>, bool) ; sq(&PersistentVector::from(w.clone())) ; (w.clone(), true) }
law!{ into_vec [T: Clone] (w: Vec<T>) -> Vec<T> ; Vec::from(pabs(w.clone())) ; w.clone() }
law!{ to_vec [T: Clone] (w: Vec<T>) -> Vec<T> ; pabs(w.clone()).to_vec() ; w.clone() }
law!{ clone [T: Clone] (w: Vec<T>) -> (Vec<T>, bool) ; sq(&pabs(w.clone()).clone()) ; (w.clone(), true) }
law!{ first [T: Clone] (w: Vec<T>) -> Option<T> ; pabs(w.clone()).first().cloned() ; w.first().cloned() }
law!{ last [T: Clone] (w: Vec<T>) -> Option<T> ; pabs(w.clone()).last().cloned() ; w.last().cloned() }
law!{ try_get [T: Clone] (w: Vec<T>, i: usize) -> Option<T> ; pabs(w.clone()).try_get(i).ok().cloned() ; w.get(i).cloned() }
law!{ try_get_err [T: Clone] (w: Vec<T>, i: usize) -> Option<(usize, usize)> ; match pabs(w.clone()).try_get(i) { Ok(_) => None, Err(crate::pvec::PVecError::IndexOutOfBounds { index, len }) => Some((index, len)), Err(_) => Some((0, 0)) } ; if i < w.len() { None } else { Some((i, w.len())) } }
law!{ index [T: Clone] (w: Vec<T>, i: usize) -> T ; pabs(w.clone())[i].clone() ; w[i].clone() }
law!{ try_update [T: Clone] (w: Vec<T>, i: usize, x: T) -> Option<(Vec<T>, bool)> ; match pabs(w.clone()).try_update(i, x.clone()) { Ok(v) => Some(sq(&v)), Err(_) => None } ; if i < w.len() { Some((u(w.clone(), i, x.clone()), true)) } else { None } }
law!{ map [T: Clone, U: Clone, F: Fn(&T) -> U] (w: Vec<T>, f: F) -> (Vec<U>, bool) ; sq(&pabs(w.clone()).map(|x| f(x))) ; (vec_map(&w, |x| f(x)), true) }
law!{ fmap [T: Clone, U: Clone, F: Fn(&T) -> U] (w: Vec<T>, f: F) -> (Vec<U>, bool) ; sq(&Functor::fmap(&pabs(w.clone()), |x: &T| f(x))) ; (vec_map(&w, |x| f(x)), true) }
law!{ fmap_owned [T: Clone, U: Clone, F: Fn(T) -> U] (w: Vec<T>, f: F) -> (Vec<U>, bool) ; sq(&Functor::fmap_owned(pabs(w.clone()), |x: T| f(x))) ; (vec_map(&w, |x| f(x.clone())), true) }
law!{ filter [T: Clone, F: Fn(&T) -> bool] (w: Vec<T>, f: F) -> (Vec<T>, bool) ; sq(&pabs(w.clone()).filter(|x| f(x))) ; ({ let mut r = Vec::new(); for x in w.iter() { if f(x) { r.push(x.clone()); } } r }, true) }
law!{ filter_map [T: Clone, U: Clone, F: Fn(&T) -> Option<U>] (w: Vec<T>, f: F) -> (Vec<U>, bool) ; sq(&pabs(w.clone()).filter_map(|x| f(x))) ; ({ let mut r = Vec::new(); for x in w.iter() { if let Some(y) = f(x) { r.push(y); } } r }, true) }
law!{ flat_map [T: Clone, U: Clone, F: Fn(&T) -> Vec<U>] (w: Vec<T>, f: F) -> (Vec<U>, bool) ; sq(&pabs(w.clone()).flat_map(|x| f(x))) ; (vec_bind(&w, |x| f(x)), true) }
vlaw!{ dedup [T: Clone + PartialEq] (w: Vec<T>) -> (Vec<T>, bool) ; sq(&pabs(w.clone()).dedup()) ; ({ let mut r = Vec::new(); let mut last: Option<&T> = None; for x in w.iter() { if last != Some(x) { r.push(x.clone()); last = Some(x); } } r }, true) }
law!{ sorted [T: Clone + Ord] (w: Vec<T>) -> (Vec<T>, bool) ; sq(&pabs(w.clone()).sorted()) ; ({ let mut r = w.clone(); r.sort(); r }, true) }
law!{ fold [T: Clone, B, F: Fn(B, &T) -> B] (w: Vec<T>, b: B, f: F) -> B ; pabs(w.clone()).fold(b, |a, x| f(a, x)) ; { let mut a = b; for x in w.iter() { a = f(a, x); } a } }
law!{ zip [T: Clone, U: Clone] (w: Vec<T>, v: Vec<U>) -> (Vec<(T, U)>, bool) ; sq(&pabs(w.clone()).zip(&pabs(v.clone()))) ; (w.iter().zip(v.iter()).map(|(a, b)| (a.clone(), b.clone())).collect(), true) }
law!{ partition [T: Clone, F: Fn(&T) -> bool] (w: Vec<T>, f: F) -> (Vec<T>, bool, Vec<T>, bool) ; sq2(&pabs(w.clone()).partition(|x| f(x))) ; { let mut a = Vec::new(); let mut b = Vec::new(); for x in w.iter() { if f(x) { a.push(x.clone()); } else { b.push(x.clone()); } } (a, true, b, true) } }
law!{ chunk_zero [T: Clone] (w: Vec<T>) -> (usize, bool) ; { let r = pabs(w.clone()).chunk(0); (r.len(), pinv(&r)) } ; (0, true) }
law!{ chunk [T: Clone] (w: Vec<T>, n: usize) -> Vec<(Vec<T>, bool)> ; if n == 0 { Vec::new() } else { pseq(&pabs(w.clone()).chunk(n)).iter().map(|c| sq(c)).collect() } ; if n == 0 { Vec::new() } else { w.chunks(n).map(|c| (c.to_vec(), true)).collect() } }
law!{ take [T: Clone] (w: Vec<T>, n: usize) -> (Vec<T>, bool) ; sq(&pabs(w.clone()).take(n)) ; (w.iter().take(n).cloned().collect(), true) }
law!{ skip [T: Clone] (w: Vec<T>, n: usize) -> (Vec<T>, bool) ; sq(&pabs(w.clone()).skip(n)) ; (w.iter().skip(n).cloned().collect(), true) }
law!{ insert [T: Clone] (w: Vec<T>, i: usize, x: T) -> (Vec<T>, bool) ; sq(&pabs(w.clone()).insert(i, x.clone())) ; ({ let mut r = w.clone(); if i < r.len() { r.insert(i, x.clone()); } else { r.push(x.clone()); } r }, true) }
law!{ remove [T: Clone] (w: Vec<T>, i: usize) -> Option<(Vec<T>, bool)> ; match pabs(w.clone()).remove(i) { Some(v) => Some(sq(&v)), None => None } ; if i < w.len() { let mut r = w.clone(); r.remove(i); Some((r, true)) } else { None } }
law!{ extend [T: Clone] (w: Vec<T>, v: Vec<T>) -> (Vec<T>, bool) ; { let mut r = pabs(w.clone()); r.extend(v.clone()); sq(&r) } ; (cat(w.clone(), v.clone()), true) }
law!{ extend_any [T: Clone, IT: Iterator<Item = T> + Clone] (w: Vec<T>, v: IT) -> (Vec<T>, bool) ; { let mut r = pabs(w.clone()); r.extend(v.clone()); sq(&r) } ; (cat(w.clone(), v.collect()), true) }
law!{ iter [T: Clone] (w: Vec<T>) -> Vec<T> ; { let mut r = Vec::new(); for x in pabs(w.clone()).iter() { r.push(x.clone()); } r } ; w.clone() }
law!{ into_iter [T: Clone] (w: Vec<T>) -> Vec<T> ; { let mut r = Vec::new(); for x in pabs(w.clone()) { r.push(x); } r } ; w.clone() }
law!{ into_iter_ref [T: Clone] (w: Vec<T>) -> Vec<T> ; { let mut r = Vec::new(); for x in &pabs(w.clone()) { r.push(x.clone()); } r } ; w.clone() }
law!{ iter_collect [T: Clone] (w: Vec<T>) -> Vec<T> ; pabs(w.clone()).iter().cloned().collect() ; w.clone() }
law!{ collect [T: Clone] (w: Vec<T>) -> (Vec<T>, bool) ; sq(&w.iter().cloned().collect::<PersistentVector<T>>()) ; (w.clone(), true) }
law!{ pvec_macro [T: Clone] (a: T, b: T, c: T) -> (Vec<T>, bool) ; sq(&crate::pvec![a.clone(), b.clone(), c.clone()]) ; (vec![a.clone(), b.clone(), c.clone()], true) }
law!{ pvec_macro_empty [T: Clone] (_a: T) -> (Vec<T>, bool) ; { let v: PersistentVector<T> = crate::pvec![]; sq(&v) } ; (Vec::new(), true) }
law!{ combine [T: Clone] (w: Vec<T>, v: Vec<T>) -> (Vec<T>, bool) ; sq(&Semigroup::combine(&pabs(w.clone()), &pabs(v.clone()))) ; (cat(w.clone(), v.clone()), true) }
law!{ combine_owned [T: Clone] (w: Vec<T>, v: Vec<T>) -> (Vec<T>, bool) ; sq(&Semigroup::combine_owned(pabs(w.clone()), pabs(v.clone()))) ; (cat(w.clone(), v.clone()), true) }
law!{ empty [T: Clone] (_w: Vec<T>) -> (Vec<T>, bool) ; sq(&<PersistentVector<T> as Monoid>::empty()) ; (Vec::new(), true) }
law!{ fold_left [T: Clone, U: Clone, F: Fn(&U, &T) -> U] (w: Vec<T>, b: U, f: F) -> U ; Foldable::fold_left(&pabs(w.clone()), &b, |a: &U, x: &T| f(a, x)) ; { let mut a = b.clone(); for x in w.iter() { a = f(&a, x); } a } }
law!{ fold_right [T: Clone, U: Clone, F: Fn(&T, &U) -> U] (w: Vec<T>, b: U, f: F) -> U ; Foldable::fold_right(&pabs(w.clone()), &b, |x: &T, a: &U| f(x, a)) ; { let mut a = b.clone(); for x in w.iter().rev() { a = f(x, &a); } a } }
law!{ length [T: Clone] (w: Vec<T>) -> usize ; Foldable::length(&pabs(w.clone())) ; w.len() }
law!{ value [T: Clone] (w: Vec<T>) -> T ; Identity::value(&pabs(w.clone())).clone() ; w[0].clone() }
law!{ try_value [T: Clone] (w: Vec<T>) -> Option<T> ; Identity::try_value(&pabs(w.clone())).cloned() ; w.first().cloned() }
law!{ into_value [T: Clone] (w: Vec<T>) -> T ; Identity::into_value(pabs(w.clone())) ; w[0].clone() }
law!{ try_into_value [T: Clone] (w: Vec<T>) -> Option<T> ; Identity::try_into_value(pabs(w.clone())) ; w.first().cloned() }
law!{ iter_next [T: Clone] (w: Vec<T>, p: usize) -> (Option<T>, usize) ; { let v = pabs(w.clone()); let mut it = crate::pvec::PersistentVectorIter { vector: &v, position: p }; let r = it.next().cloned(); (r, it.position) } ; (w.get(p).cloned(), if p < w.len() { p + 1 } else { p }) }
law!{ into_iter_next [T: Clone] (w: Vec<T>, p: usize) -> (Option<T>, usize) ; { let mut it = crate::pvec::PersistentVectorIntoIter { vector: pabs(w.clone()), position: p }; let r = it.next(); (r, it.position) } ; (w.get(p).cloned(), if p < w.len() { p + 1 } else { p }) }
law!{ iter_start [T: Clone] (w: Vec<T>) -> (Vec<T>, usize) ; { let v = pabs(w.clone()); let it = v.iter(); (pseq(it.vector), it.position) } ; (w.clone(), 0) }
law!{ into_iter_start [T: Clone] (w: Vec<T>) -> (Vec<T>, usize) ; { let it = pabs(w.clone()).into_iter(); (pseq(&it.vector), it.position) } ; (w.clone(), 0) }
law!{ iter_size_hint [T: Clone] (w: Vec<T>, p: usize) -> (usize, Option<usize>) ; { let v = pabs(w.clone()); crate::pvec::PersistentVectorIter { vector: &v, position: p }.size_hint() } ; (w.len() - p, Some(w.len() - p)) }
law!{ into_iter_size_hint [T: Clone] (w: Vec<T>, p: usize) -> (usize, Option<usize>) ; crate::pvec::PersistentVectorIntoIter { vector: pabs(w.clone()), position: p }.size_hint() ; (w.len() - p, Some(w.len() - p)) }
law!{ iter_nth [T: Clone] (w: Vec<T>, p: usize, n: usize) -> (Option<T>, Option<T>) ; { let v = pabs(w.clone()); let mut it = crate::pvec::PersistentVectorIter { vector: &v, position: p }; let a = it.nth(n).cloned(); let b = it.next().cloned(); (a, b) } ; (w.get(p + n).cloned(), w.get(p + n + 1).cloned()) }
law!{ iter_last [T: Clone] (w: Vec<T>, p: usize) -> Option<T> ; { let v = pabs(w.clone()); let mut it = crate::pvec::PersistentVectorIter { vector: &v, position: p }; it.last().cloned() } ; if p < w.len() { w.last().cloned() } else { None } }
law!{ iter_count [T: Clone] (w: Vec<T>, p: usize) -> usize ; { let v = pabs(w.clone()); let mut it = crate::pvec::PersistentVectorIter { vector: &v, position: p }; it.count() } ; w.len().saturating_sub(p) }
law!{ iter_rest [T: Clone] (w: Vec<T>, p: usize) -> Vec<T> ; { let v = pabs(w.clone()); let mut it = crate::pvec::PersistentVectorIter { vector: &v, position: p }; it.cloned().collect() } ; if p < w.len() { w[p..].to_vec() } else { Vec::new() } }
law!{ iter_fold [T: Clone, B, F: Fn(B, T) -> B] (w: Vec<T>, p: usize, b: B, f: F) -> B ; { let v = pabs(w.clone()); let mut it = crate::pvec::PersistentVectorIter { vector: &v, position: p }; it.cloned().fold(b, |s, x| f(s, x)) } ; { let mut s = b; let mut i = p; while i < w.len() { s = f(s, w[i].clone()); i += 1; } s } }
law!{ iter_skip [T: Clone] (w: Vec<T>, p: usize) -> Vec<T> ; { let v = pabs(w.clone()); let mut it = crate::pvec::PersistentVectorIter { vector: &v, position: p }; it.skip(1).cloned().collect() } ; if p + 1 < w.len() { w[p + 1..].to_vec() } else { Vec::new() } }
law!{ iter_stays_done [T: Clone] (w: Vec<T>) -> (usize, bool) ; { let v = pabs(w.clone()); let mut it = crate::pvec::PersistentVectorIter { vector: &v, position: 0 }; let mut n = 0; while let Some(_) = it.next() { n += 1; } let d = it.next().is_none() && it.next().is_none(); (n, d) } ; (w.len(), true) }
law!{ into_iter_nth [T: Clone] (w: Vec<T>, p: usize, n: usize) -> (Option<T>, Option<T>) ; { let mut it = crate::pvec::PersistentVectorIntoIter { vector: pabs(w.clone()), position: p }; let a = it.nth(n); let b = it.next(); (a, b) } ; (w.get(p + n).cloned(), w.get(p + n + 1).cloned()) }
law!{ into_iter_last [T: Clone] (w: Vec<T>, p: usize) -> Option<T> ; { let mut it = crate::pvec::PersistentVectorIntoIter { vector: pabs(w.clone()), position: p }; it.last() } ; if p < w.len() { w.last().cloned() } else { None } }
law!{ into_iter_count [T: Clone] (w: Vec<T>, p: usize) -> usize ; { let mut it = crate::pvec::PersistentVectorIntoIter { vector: pabs(w.clone()), position: p }; it.count() } ; w.len().saturating_sub(p) }
law!{ into_iter_rest [T: Clone] (w: Vec<T>, p: usize) -> Vec<T> ; { let mut it = crate::pvec::PersistentVectorIntoIter { vector: pabs(w.clone()), position: p }; it.collect() } ; if p < w.len() { w[p..].to_vec() } else { Vec::new() } }
law!{ into_iter_fold [T: Clone, B, F: Fn(B, T) -> B] (w: Vec<T>, p: usize, b: B, f: F) -> B ; { let mut it = crate::pvec::PersistentVectorIntoIter { vector: pabs(w.clone()), position: p }; it.fold(b, |s, x| f(s, x)) } ; { let mut s = b; let mut i = p; while i < w.len() { s = f(s, w[i].clone()); i += 1; } s } }
law!{ into_iter_skip [T: Clone] (w: Vec<T>, p: usize) -> Vec<T> ; { let mut it = crate::pvec::PersistentVectorIntoIter { vector: pabs(w.clone()), position: p }; it.skip(1).collect() } ; if p + 1 < w.len() { w[p + 1..].to_vec() } else { Vec::new() } }
law!{ into_iter_stays_done [T: Clone] (w: Vec<T>) -> (usize, bool) ; { let mut it = crate::pvec::PersistentVectorIntoIter { vector: pabs(w.clone()), position: 0 }; let mut n = 0; while let Some(_) = it.next() { n += 1; } let d = it.next().is_none() && it.next().is_none(); (n, d) } ; (w.len(), true) }
law!{ iter_len [T: Clone] (w: Vec<T>) -> usize ; pabs(w.clone()).iter().len() ; w.len() }
}
pub mod seq_inline { use super::*;
law!{ len [T: Clone] (w: Vec<T>) -> usize ; pinl(w.clone()).len() ; w.len() }
law!{ is_empty [T: Clone] (w: Vec<T>) -> bool ; pinl(w.clone()).is_empty() ; w.is_empty() }
law!{ into_vec [T: Clone] (w: Vec<T>) -> Vec<T> ; Vec::from(pinl(w.clone())) ; w.clone() }
law!{ to_vec [T: Clone] (w: Vec<T>) -> Vec<T> ; pinl(w.clone()).to_vec() ; w.clone() }
law!{ clone [T: Clone] (w: Vec<T>) -> (Vec<T>, bool) ; sq(&pinl(w.clone()).clone()) ; (w.clone(), true) }
law!{ first [T: Clone] (w: Vec<T>) -> Option<T> ; pinl(w.clone()).first().cloned() ; w.first().cloned() }
law!{ last [T: Clone] (w: Vec<T>) -> Option<T> ; pinl(w.clone()).last().cloned() ; w.last().cloned() }
law!{ try_get [T: Clone] (w: Vec<T>, i: usize) -> Option<T> ; pinl(w.clone()).try_get(i).ok().cloned() ; w.get(i).cloned() }
law!{ try_get_err [T: Clone] (w: Vec<T>, i: usize) -> Option<(usize, usize)> ; match pinl(w.clone()).try_get(i) { Ok(_) => None, Err(crate::pvec::PVecError::IndexOutOfBounds { index, len }) => Some((index, len)), Err(_) => Some((0, 0)) } ; if i < w.len() { None } else { Some((i, w.len())) } }
law!{ index [T: Clone] (w: Vec<T>, i: usize) -> T ; pinl(w.clone())[i].clone() ; w[i].clone() }
law!{ try_update [T: Clone] (w: Vec<T>, i: usize, x: T) -> Option<(Vec<T>, bool)> ; match pinl(w.clone()).try_update(i, x.clone()) { Ok(v) => Some(sq(&v)), Err(_) => None } ; if i < w.len() { Some((u(w.clone(), i, x.clone()), true)) } else { None } }
law!{ map [T: Clone, U: Clone, F: Fn(&T) -> U] (w: Vec<T>, f: F) -> (Vec<U>, bool) ; sq(&pinl(w.clone()).map(|x| f(x))) ; (vec_map(&w, |x| f(x)), true) }
law!{ fmap [T: Clone, U: Clone, F: Fn(&T) -> U] (w: Vec<T>, f: F) -> (Vec<U>, bool) ; sq(&Functor::fmap(&pinl(w.clone()), |x: &T| f(x))) ; (vec_map(&w, |x| f(x)), true) }
law!{ fmap_owned [T: Clone, U: Clone, F: Fn(T) -> U] (w: Vec<T>, f: F) -> (Vec<U>, bool) ; sq(&Functor::fmap_owned(pinl(w.clone()), |x: T| f(x))) ; (vec_map(&w, |x| f(x.clone())), true) }
law!{ filter [T: Clone, F: Fn(&T) -> bool] (w: Vec<T>, f: F) -> (Vec<T>, bool) ; sq(&pinl(w.clone()).filter(|x| f(x))) ; ({ let mut r = Vec::new(); for x in w.iter() { if f(x) { r.push(x.clone()); } } r }, true) }
law!{ filter_map [T: Clone, U: Clone, F: Fn(&T) -> Option<U>] (w: Vec<T>, f: F) -> (Vec<U>, bool) ; sq(&pinl(w.clone()).filter_map(|x| f(x))) ; ({ let mut r = Vec::new(); for x in w.iter() { if let Some(y) = f(x) { r.push(y); } } r }, true) }
law!{ flat_map [T: Clone, U: Clone, F: Fn(&T) -> Vec<U>] (w: Vec<T>, f: F) -> (Vec<U>, bool) ; sq(&pinl(w.clone()).flat_map(|x| f(x))) ; (vec_bind(&w, |x| f(x)), true) }
vlaw!{ dedup [T: Clone + PartialEq] (w: Vec<T>) -> (Vec<T>, bool) ; sq(&pinl(w.clone()).dedup()) ; ({ let mut r = Vec::new(); let mut last: Option<&T> = None; for x in w.iter() { if last != Some(x) { r.push(x.clone()); last = Some(x); } } r }, true) }
law!{ sorted [T: Clone + Ord] (w: Vec<T>) -> (Vec<T>, bool) ; sq(&pinl(w.clone()).sorted()) ; ({ let mut r = w.clone(); r.sort(); r }, true) }
law!{ fold [T: Clone, B, F: Fn(B, &T) -> B] (w: Vec<T>, b: B, f: F) -> B ; pinl(w.clone()).fold(b, |a, x| f(a, x)) ; { let mut a = b; for x in w.iter() { a = f(a, x); } a } }
law!{ zip [T: Clone, U: Clone] (w: Vec<T>, v: Vec<U>) -> (Vec<(T, U)>, bool) ; sq(&pinl(w.clone()).zip(&pabs(v.clone()))) ; (w.iter().zip(v.iter()).map(|(a, b)| (a.clone(), b.clone())).collect(), true) }
law!{ partition [T: Clone, F: Fn(&T) -> bool] (w: Vec<T>, f: F) -> (Vec<T>, bool, Vec<T>, bool) ; sq2(&pinl(w.clone()).partition(|x| f(x))) ; { let mut a = Vec::new(); let mut b = Vec::new(); for x in w.iter() { if f(x) { a.push(x.clone()); } else { b.push(x.clone()); } } (a, true, b, true) } }
law!{ chunk_zero [T: Clone] (w: Vec<T>) -> (usize, bool) ; { let r = pinl(w.clone()).chunk(0); (r.len(), pinv(&r)) } ; (0, true) }
law!{ chunk [T: Clone] (w: Vec<T>, n: usize) -> Vec<(Vec<T>, bool)> ; if n == 0 { Vec::new() } else { pseq(&pinl(w.clone()).chunk(n)).iter().map(|c| sq(c)).collect() } ; if n == 0 { Vec::new() } else { w.chunks(n).map(|c| (c.to_vec(), true)).collect() } }
law!{ take [T: Clone] (w: Vec<T>, n: usize) -> (Vec<T>, bool) ; sq(&pinl(w.clone()).take(n)) ; (w.iter().take(n).cloned().collect(), true) }
law!{ skip [T: Clone] (w: Vec<T>, n: usize) -> (Vec<T>, bool) ; sq(&pinl(w.clone()).skip(n)) ; (w.iter().skip(n).cloned().collect(), true) }
law!{ insert [T: Clone] (w: Vec<T>, i: usize, x: T) -> (Vec<T>, bool) ; sq(&pinl(w.clone()).insert(i, x.clone())) ; ({ let mut r = w.clone(); if i < r.len() { r.insert(i, x.clone()); } else { r.push(x.clone()); } r }, true) }
law!{ remove [T: Clone] (w: Vec<T>, i: usize) -> Option<(Vec<T>, bool)> ; match pinl(w.clone()).remove(i) { Some(v) => Some(sq(&v)), None => None } ; if i < w.len() { let mut r = w.clone(); r.remove(i); Some((r, true)) } else { None } }
law!{ extend [T: Clone] (w: Vec<T>, v: Vec<T>) -> (Vec<T>, bool) ; { let mut r = pinl(w.clone()); r.extend(v.clone()); sq(&r) } ; (cat(w.clone(), v.clone()), true) }
law!{ extend_any [T: Clone, IT: Iterator<Item = T> + Clone] (w: Vec<T>, v: IT) -> (Vec<T>, bool) ; { let mut r = pinl(w.clone()); r.extend(v.clone()); sq(&r) } ; (cat(w.clone(), v.collect()), true) }
law!{ iter [T: Clone] (w: Vec<T>) -> Vec<T> ; { let mut r = Vec::new(); for x in pinl(w.clone()).iter() { r.push(x.clone()); } r } ; w.clone() }
law!{ into_iter [T: Clone] (w: Vec<T>) -> Vec<T> ; { let mut r = Vec::new(); for x in pinl(w.clone()) { r.push(x); } r } ; w.clone() }
law!{ combine [T: Clone] (w: Vec<T>, v: Vec<T>) -> (Vec<T>, bool) ; sq(&Semigroup::combine(&pinl(w.clone()), &pabs(v.clone()))) ; (cat(w.clone(), v.clone()), true) }
law!{ combine_owned [T: Clone] (w: Vec<T>, v: Vec<T>) -> (Vec<T>, bool) ; sq(&Semigroup::combine_owned(pinl(w.clone()), pabs(v.clone()))) ; (cat(w.clone(), v.clone()), true) }
law!{ fold_left [T: Clone, U: Clone, F: Fn(&U, &T) -> U] (w: Vec<T>, b: U, f: F) -> U ; Foldable::fold_left(&pinl(w.clone()), &b, |a: &U, x: &T| f(a, x)) ; { let mut a = b.clone(); for x in w.iter() { a = f(&a, x); } a } }
law!{ fold_right [T: Clone, U: Clone, F: Fn(&T, &U) -> U] (w: Vec<T>, b: U, f: F) -> U ; Foldable::fold_right(&pinl(w.clone()), &b, |x: &T, a: &U| f(x, a)) ; { let mut a = b.clone(); for x in w.iter().rev() { a = f(x, &a); } a } }
law!{ length [T: Clone] (w: Vec<T>) -> usize ; Foldable::length(&pinl(w.clone())) ; w.len() }
law!{ value [T: Clone] (w: Vec<T>) -> T ; Identity::value(&pinl(w.clone())).clone() ; w[0].clone() }
law!{ try_value [T: Clone] (w: Vec<T>) -> Option<T> ; Identity::try_value(&pinl(w.clone())).cloned() ; w.first().cloned() }
law!{ into_value [T: Clone] (w: Vec<T>) -> T ; Identity::into_value(pinl(w.clone())) ; w[0].clone() }
law!{ try_into_value [T: Clone] (w: Vec<T>) -> Option<T> ; Identity::try_into_value(pinl(w.clone())) ; w.first().cloned() }
}
pub mod seq_tree { use super::*;
law!{ len [T: Clone] (zh: Vec<T>, zr: Vec<T>, zt: Vec<T>, zk: usize) -> usize ; ptree(tr(zh.clone(), nabs(zr.clone()), zt.clone(), zk)).len() ; { let w = c3(zh.clone(), zr.clone(), zt.clone()); w.len() } }
law!{ is_empty [T: Clone] (zh: Vec<T>, zr: Vec<T>, zt: Vec<T>, zk: usize) -> bool ; ptree(tr(zh.clone(), nabs(zr.clone()), zt.clone(), zk)).is_empty() ; { let w = c3(zh.clone(), zr.clone(), zt.clone()); w.is_empty() } }
law!{ into_vec [T: Clone] (zh: Vec<T>, zr: Vec<T>, zt: Vec<T>, zk: usize) -> Vec<T> ; Vec::from(ptree(tr(zh.clone(), nabs(zr.clone()), zt.clone(), zk))) ; { let w = c3(zh.clone(), zr.clone(), zt.clone()); w.clone() } }
law!{ to_vec [T: Clone] (zh: Vec<T>, zr: Vec<T>, zt: Vec<T>, zk: usize) -> Vec<T> ; ptree(tr(zh.clone(), nabs(zr.clone()), zt.clone(), zk)).to_vec() ; { let w = c3(zh.clone(), zr.clone(), zt.clone()); w.clone() } }
law!{ clone [T: Clone] (zh: Vec<T>, zr: Vec<T>, zt: Vec<T>, zk: usize) -> (Vec<T>, bool) ; sq(&ptree(tr(zh.clone(), nabs(zr.clone()), zt.clone(), zk)).clone()) ; { let w = c3(zh.clone(), zr.clone(), zt.clone()); (w.clone(), true) } }
law!{ first [T: Clone] (zh: Vec<T>, zr: Vec<T>, zt: Vec<T>, zk: usize) -> Option<T> ; ptree(tr(zh.clone(), nabs(zr.clone()), zt.clone(), zk)).first().cloned() ; { let w = c3(zh.clone(), zr.clone(), zt.clone()); w.first().cloned() } }
law!{ last [T: Clone] (zh: Vec<T>, zr: Vec<T>, zt: Vec<T>, zk: usize) -> Option<T> ; ptree(tr(zh.clone(), nabs(zr.clone()), zt.clone(), zk)).last().cloned() ; { let w = c3(zh.clone(), zr.clone(), zt.clone()); w.last().cloned() } }
law!{ try_get [T: Clone] (zh: Vec<T>, zr: Vec<T>, zt: Vec<T>, zk: usize, i: usize) -> Option<T> ; ptree(tr(zh.clone(), nabs(zr.clone()), zt.clone(), zk)).try_get(i).ok().cloned() ; { let w = c3(zh.clone(), zr.clone(), zt.clone()); w.get(i).cloned() } }
law!{ try_get_err [T: Clone] (zh: Vec<T>, zr: Vec<T>, zt: Vec<T>, zk: usize, i: usize) -> Option<(usize, usize)> ; match ptree(tr(zh.clone(), nabs(zr.clone()), zt.clone(), zk)).try_get(i) { Ok(_) => None, Err(crate::pvec::PVecError::IndexOutOfBounds { index, len }) => Some((index, len)), Err(_) => Some((0, 0)) } ; { let w = c3(zh.clone(), zr.clone(), zt.clone()); if i < w.len() { None } else { Some((i, w.len())) } } }
law!{ index [T: Clone] (zh: Vec<T>, zr: Vec<T>, zt: Vec<T>, zk: usize, i: usize) -> T ; ptree(tr(zh.clone(), nabs(zr.clone()), zt.clone(), zk))[i].clone() ; { let w = c3(zh.clone(), zr.clone(), zt.clone()); w[i].clone() } }
law!{ try_update [T: Clone] (zh: Vec<T>, zr: Vec<T>, zt: Vec<T>, zk: usize, i: usize, x: T) -> Option<(Vec<T>, bool)> ; match ptree(tr(zh.clone(), nabs(zr.clone()), zt.clone(), zk)).try_update(i, x.clone()) { Ok(v) => Some(sq(&v)), Err(_) => None } ; { let w = c3(zh.clone(), zr.clone(), zt.clone()); if i < w.len() { Some((u(w.clone(), i, x.clone()), true)) } else { None } } }
law!{ map [T: Clone, U: Clone, F: Fn(&T) -> U] (zh: Vec<T>, zr: Vec<T>, zt: Vec<T>, zk: usize, f: F) -> (Vec<U>, bool) ; sq(&ptree(tr(zh.clone(), nabs(zr.clone()), zt.clone(), zk)).map(|x| f(x))) ; { let w = c3(zh.clone(), zr.clone(), zt.clone()); (vec_map(&w, |x| f(x)), true) } }
law!{ fmap [T: Clone, U: Clone, F: Fn(&T) -> U] (zh: Vec<T>, zr: Vec<T>, zt: Vec<T>, zk: usize, f: F) -> (Vec<U>, bool) ; sq(&Functor::fmap(&ptree(tr(zh.clone(), nabs(zr.clone()), zt.clone(), zk)), |x: &T| f(x))) ; { let w = c3(zh.clone(), zr.clone(), zt.clone()); (vec_map(&w, |x| f(x)), true) } }
law!{ fmap_owned [T: Clone, U: Clone, F: Fn(T) -> U] (zh: Vec<T>, zr: Vec<T>, zt: Vec<T>, zk: usize, f: F) -> (Vec<U>, bool) ; sq(&Functor::fmap_owned(ptree(tr(zh.clone(), nabs(zr.clone()), zt.clone(), zk)), |x: T| f(x))) ; { let w = c3(zh.clone(), zr.clone(), zt.clone()); (vec_map(&w, |x| f(x.clone())), true) } }
law!{ filter [T: Clone, F: Fn(&T) -> bool] (zh: Vec<T>, zr: Vec<T>, zt: Vec<T>, zk: usize, f: F) -> (Vec<T>, bool) ; sq(&ptree(tr(zh.clone(), nabs(zr.clone()), zt.clone(), zk)).filter(|x| f(x))) ; { let w = c3(zh.clone(), zr.clone(), zt.clone()); ({ let mut r = Vec::new(); for x in w.iter() { if f(x) { r.push(x.clone()); } } r }, true) } }
law!{ filter_map [T: Clone, U: Clone, F: Fn(&T) -> Option<U>] (zh: Vec<T>, zr: Vec<T>, zt: Vec<T>, zk: usize, f: F) -> (Vec<U>, bool) ; sq(&ptree(tr(zh.clone(), nabs(zr.clone()), zt.clone(), zk)).filter_map(|x| f(x))) ; { let w = c3(zh.clone(), zr.clone(), zt.clone()); ({ let mut r = Vec::new(); for x in w.iter() { if let Some(y) = f(x) { r.push(y); } } r }, true) } }
law!{ flat_map [T: Clone, U: Clone, F: Fn(&T) -> Vec<U>] (zh: Vec<T>, zr: Vec<T>, zt: Vec<T>, zk: usize, f: F) -> (Vec<U>, bool) ; sq(&ptree(tr(zh.clone(), nabs(zr.clone()), zt.clone(), zk)).flat_map(|x| f(x))) ; { let w = c3(zh.clone(), zr.clone(), zt.clone()); (vec_bind(&w, |x| f(x)), true) } }
vlaw!{ dedup [T: Clone + PartialEq] (zh: Vec<T>, zr: Vec<T>, zt: Vec<T>, zk: usize) -> (Vec<T>, bool) ; sq(&ptree(tr(zh.clone(), nabs(zr.clone()), zt.clone(), zk)).dedup()) ; { let w = c3(zh.clone(), zr.clone(), zt.clone()); ({ let mut r = Vec::new(); let mut last: Option<&T> = None; for x in w.iter() { if last != Some(x) { r.push(x.clone()); last = Some(x); } } r }, true) } }
law!{ sorted [T: Clone + Ord] (zh: Vec<T>, zr: Vec<T>, zt: Vec<T>, zk: usize) -> (Vec<T>, bool) ; sq(&ptree(tr(zh.clone(), nabs(zr.clone()), zt.clone(), zk)).sorted()) ; { let w = c3(zh.clone(), zr.clone(), zt.clone()); ({ let mut r = w.clone(); r.sort(); r }, true) } }
law!{ fold [T: Clone, B, F: Fn(B, &T) -> B] (zh: Vec<T>, zr: Vec<T>, zt: Vec<T>, zk: usize, b: B, f: F) -> B ; ptree(tr(zh.clone(), nabs(zr.clone()), zt.clone(), zk)).fold(b, |a, x| f(a, x)) ; { let w = c3(zh.clone(), zr.clone(), zt.clone()); { let mut a = b; for x in w.iter() { a = f(a, x); } a } } }
law!{ zip [T: Clone, U: Clone] (zh: Vec<T>, zr: Vec<T>, zt: Vec<T>, zk: usize, v: Vec<U>) -> (Vec<(T, U)>, bool) ; sq(&ptree(tr(zh.clone(), nabs(zr.clone()), zt.clone(), zk)).zip(&pabs(v.clone()))) ; { let w = c3(zh.clone(), zr.clone(), zt.clone()); (w.iter().zip(v.iter()).map(|(a, b)| (a.clone(), b.clone())).collect(), true) } }
law!{ partition [T: Clone, F: Fn(&T) -> bool] (zh: Vec<T>, zr: Vec<T>, zt: Vec<T>, zk: usize, f: F) -> (Vec<T>, bool, Vec<T>, bool) ; sq2(&ptree(tr(zh.clone(), nabs(zr.clone()), zt.clone(), zk)).partition(|x| f(x))) ; { let w = c3(zh.clone(), zr.clone(), zt.clone()); { let mut a = Vec::new(); let mut b = Vec::new(); for x in w.iter() { if f(x) { a.push(x.clone()); } else { b.push(x.clone()); } } (a, true, b, true) } } }
law!{ chunk_zero [T: Clone] (zh: Vec<T>, zr: Vec<T>, zt: Vec<T>, zk: usize) -> (usize, bool) ; { let r = ptree(tr(zh.clone(), nabs(zr.clone()), zt.clone(), zk)).chunk(0); (r.len(), pinv(&r)) } ; { let w = c3(zh.clone(), zr.clone(), zt.clone()); (0, true) } }
law!{ chunk [T: Clone] (zh: Vec<T>, zr: Vec<T>, zt: Vec<T>, zk: usize, n: usize) -> Vec<(Vec<T>, bool)> ; if n == 0 { Vec::new() } else { pseq(&ptree(tr(zh.clone(), nabs(zr.clone()), zt.clone(), zk)).chunk(n)).iter().map(|c| sq(c)).collect() } ; { let w = c3(zh.clone(), zr.clone(), zt.clone()); if n == 0 { Vec::new() } else { w.chunks(n).map(|c| (c.to_vec(), true)).collect() } } }
law!{ take [T: Clone] (zh: Vec<T>, zr: Vec<T>, zt: Vec<T>, zk: usize, n: usize) -> (Vec<T>, bool) ; sq(&ptree(tr(zh.clone(), nabs(zr.clone()), zt.clone(), zk)).take(n)) ; { let w = c3(zh.clone(), zr.clone(), zt.clone()); (w.iter().take(n).cloned().collect(), true) } }
law!{ skip [T: Clone] (zh: Vec<T>, zr: Vec<T>, zt: Vec<T>, zk: usize, n: usize) -> (Vec<T>, bool) ; sq(&ptree(tr(zh.clone(), nabs(zr.clone()), zt.clone(), zk)).skip(n)) ; { let w = c3(zh.clone(), zr.clone(), zt.clone()); (w.iter().skip(n).cloned().collect(), true) } }
law!{ insert [T: Clone] (zh: Vec<T>, zr: Vec<T>, zt: Vec<T>, zk: usize, i: usize, x: T) -> (Vec<T>, bool) ; sq(&ptree(tr(zh.clone(), nabs(zr.clone()), zt.clone(), zk)).insert(i, x.clone())) ; { let w = c3(zh.clone(), zr.clone(), zt.clone()); ({ let mut r = w.clone(); if i < r.len() { r.insert(i, x.clone()); } else { r.push(x.clone()); } r }, true) } }
law!{ remove [T: Clone] (zh: Vec<T>, zr: Vec<T>, zt: Vec<T>, zk: usize, i: usize) -> Option<(Vec<T>, bool)> ; match ptree(tr(zh.clone(), nabs(zr.clone()), zt.clone(), zk)).remove(i) { Some(v) => Some(sq(&v)), None => None } ; { let w = c3(zh.clone(), zr.clone(), zt.clone()); if i < w.len() { let mut r = w.clone(); r.remove(i); Some((r, true)) } else { None } } }
law!{ extend [T: Clone] (zh: Vec<T>, zr: Vec<T>, zt: Vec<T>, zk: usize, v: Vec<T>) -> (Vec<T>, bool) ; { let mut r = ptree(tr(zh.clone(), nabs(zr.clone()), zt.clone(), zk)); r.extend(v.clone()); sq(&r) } ; { let w = c3(zh.clone(), zr.clone(), zt.clone()); (cat(w.clone(), v.clone()), true) } }
law!{ extend_any [T: Clone, IT: Iterator<Item = T> + Clone] (zh: Vec<T>, zr: Vec<T>, zt: Vec<T>, zk: usize, v: IT) -> (Vec<T>, bool) ; { let mut r = ptree(tr(zh.clone(), nabs(zr.clone()), zt.clone(), zk)); r.extend(v.clone()); sq(&r) } ; { let w = c3(zh.clone(), zr.clone(), zt.clone()); (cat(w.clone(), v.collect()), true) } }
law!{ iter [T: Clone] (zh: Vec<T>, zr: Vec<T>, zt: Vec<T>, zk: usize) -> Vec<T> ; { let mut r = Vec::new(); for x in ptree(tr(zh.clone(), nabs(zr.clone()), zt.clone(), zk)).iter() { r.push(x.clone()); } r } ; { let w = c3(zh.clone(), zr.clone(), zt.clone()); w.clone() } }
law!{ into_iter [T: Clone] (zh: Vec<T>, zr: Vec<T>, zt: Vec<T>, zk: usize) -> Vec<T> ; { let mut r = Vec::new(); for x in ptree(tr(zh.clone(), nabs(zr.clone()), zt.clone(), zk)) { r.push(x); } r } ; { let w = c3(zh.clone(), zr.clone(), zt.clone()); w.clone() } }
law!{ combine [T: Clone] (zh: Vec<T>, zr: Vec<T>, zt: Vec<T>, zk: usize, v: Vec<T>) -> (Vec<T>, bool) ; sq(&Semigroup::combine(&ptree(tr(zh.clone(), nabs(zr.clone()), zt.clone(), zk)), &pabs(v.clone()))) ; { let w = c3(zh.clone(), zr.clone(), zt.clone()); (cat(w.clone(), v.clone()), true) } }
law!{ combine_owned [T: Clone] (zh: Vec<T>, zr: Vec<T>, zt: Vec<T>, zk: usize, v: Vec<T>) -> (Vec<T>, bool) ; sq(&Semigroup::combine_owned(ptree(tr(zh.clone(), nabs(zr.clone()), zt.clone(), zk)), pabs(v.clone()))) ; { let w = c3(zh.clone(), zr.clone(), zt.clone()); (cat(w.clone(), v.clone()), true) } }
law!{ fold_left [T: Clone, U: Clone, F: Fn(&U, &T) -> U] (zh: Vec<T>, zr: Vec<T>, zt: Vec<T>, zk: usize, b: U, f: F) -> U ; Foldable::fold_left(&ptree(tr(zh.clone(), nabs(zr.clone()), zt.clone(), zk)), &b, |a: &U, x: &T| f(a, x)) ; { let w = c3(zh.clone(), zr.clone(), zt.clone()); { let mut a = b.clone(); for x in w.iter() { a = f(&a, x); } a } } }
law!{ fold_right [T: Clone, U: Clone, F: Fn(&T, &U) -> U] (zh: Vec<T>, zr: Vec<T>, zt: Vec<T>, zk: usize, b: U, f: F) -> U ; Foldable::fold_right(&ptree(tr(zh.clone(), nabs(zr.clone()), zt.clone(), zk)), &b, |x: &T, a: &U| f(x, a)) ; { let w = c3(zh.clone(), zr.clone(), zt.clone()); { let mut a = b.clone(); for x in w.iter().rev() { a = f(x, &a); } a } } }
law!{ length [T: Clone] (zh: Vec<T>, zr: Vec<T>, zt: Vec<T>, zk: usize) -> usize ; Foldable::length(&ptree(tr(zh.clone(), nabs(zr.clone()), zt.clone(), zk))) ; { let w = c3(zh.clone(), zr.clone(), zt.clone()); w.len() } }
law!{ value [T: Clone] (zh: Vec<T>, zr: Vec<T>, zt: Vec<T>, zk: usize) -> T ; Identity::value(&ptree(tr(zh.clone(), nabs(zr.clone()), zt.clone(), zk))).clone() ; { let w = c3(zh.clone(), zr.clone(), zt.clone()); w[0].clone() } }
law!{ try_value [T: Clone] (zh: Vec<T>, zr: Vec<T>, zt: Vec<T>, zk: usize) -> Option<T> ; Identity::try_value(&ptree(tr(zh.clone(), nabs(zr.clone()), zt.clone(), zk))).cloned() ; { let w = c3(zh.clone(), zr.clone(), zt.clone()); w.first().cloned() } }
law!{ into_value [T: Clone] (zh: Vec<T>, zr: Vec<T>, zt: Vec<T>, zk: usize) -> T ; Identity::into_value(ptree(tr(zh.clone(), nabs(zr.clone()), zt.clone(), zk))) ; { let w = c3(zh.clone(), zr.clone(), zt.clone()); w[0].clone() } }
law!{ try_into_value [T: Clone] (zh: Vec<T>, zr: Vec<T>, zt: Vec<T>, zk: usize) -> Option<T> ; Identity::try_into_value(ptree(tr(zh.clone(), nabs(zr.clone()), zt.clone(), zk))) ; { let w = c3(zh.clone(), zr.clone(), zt.clone()); w.first().cloned() } }
}
