//! Reference functors: the plain meaning of "map / bind / apply" for each carrier.
pub use crate::prelude::*;
pub use crate::datatypes::maybe::Maybe;
pub use crate::datatypes::either::Either;
pub use crate::datatypes::id::Id;
pub use crate::traits::functor::FunctorExt;
pub use crate::traits::pure::PureExt;
pub use std::fmt::Debug;

pub fn option_map<A, B>(m: &Option<A>, f: impl Fn(&A) -> B) -> Option<B> { match m { Some(x) => Some(f(x)), None => None } }
pub fn result_map<A, E: Clone, B>(m: &Result<A, E>, f: impl Fn(&A) -> B) -> Result<B, E> { match m { Ok(x) => Ok(f(x)), Err(e) => Err(e.clone()) } }
pub fn vec_map<A, B>(m: &Vec<A>, f: impl Fn(&A) -> B) -> Vec<B> { let mut v = Vec::new(); for x in m.iter() { v.push(f(x)); } v }
pub fn maybe_map<A, B>(m: &Maybe<A>, f: impl Fn(&A) -> B) -> Maybe<B> { match m { Maybe::Just(x) => Maybe::Just(f(x)), Maybe::Nothing => Maybe::Nothing } }
pub fn either_map<L: Clone, A, B>(m: &Either<L, A>, f: impl Fn(&A) -> B) -> Either<L, B> { match m { Either::Right(x) => Either::Right(f(x)), Either::Left(l) => Either::Left(l.clone()) } }
pub fn id_map<A, B>(m: &Id<A>, f: impl Fn(&A) -> B) -> Id<B> { Id::new(f(m.as_ref())) }

pub fn option_bind<A, B>(m: &Option<A>, f: impl Fn(&A) -> Option<B>) -> Option<B> { match m { Some(x) => f(x), None => None } }
pub fn result_bind<A, E: Clone, B>(m: &Result<A, E>, f: impl Fn(&A) -> Result<B, E>) -> Result<B, E> { match m { Ok(x) => f(x), Err(e) => Err(e.clone()) } }
pub fn vec_bind<A, B>(m: &Vec<A>, f: impl Fn(&A) -> Vec<B>) -> Vec<B> { let mut v = Vec::new(); for x in m.iter() { for y in f(x) { v.push(y); } } v }
pub fn maybe_bind<A, B>(m: &Maybe<A>, f: impl Fn(&A) -> Maybe<B>) -> Maybe<B> { match m { Maybe::Just(x) => f(x), Maybe::Nothing => Maybe::Nothing } }
pub fn either_bind<L: Clone, A, B>(m: &Either<L, A>, f: impl Fn(&A) -> Either<L, B>) -> Either<L, B> { match m { Either::Right(x) => f(x), Either::Left(l) => Either::Left(l.clone()) } }
pub fn id_bind<A, B>(m: &Id<A>, f: impl Fn(&A) -> Id<B>) -> Id<B> { f(m.as_ref()) }
pub use crate::datatypes::choice::Choice;
pub use crate::traits::foldable::{Foldable, FoldableExt};
pub use crate::traits::semigroup::SemigroupExt;
pub use crate::traits::monoid::MonoidExt;
pub use crate::traits::monad_plus::MonadPlus;
pub use crate::traits::alternative::Alternative;
pub fn choice_map<A, B: Clone>(m: &Choice<A>, f: impl Fn(&A) -> B) -> Choice<B> { let mut v = Vec::new(); for x in m.iter() { v.push(f(x)); } Choice::of_many(v) }
pub fn choice_bind<A, B: Clone>(m: &Choice<A>, f: impl Fn(&A) -> Choice<B>) -> Choice<B> { let mut v = Vec::new(); for x in m.iter() { for y in f(x) { v.push(y); } } Choice::of_many(v) }
pub use crate::datatypes::validated::Validated;
pub use crate::traits::bifunctor::Bifunctor;
pub use crate::traits::identity::Identity;
pub use crate::traits::hkt::{HKT, BinaryHKT};
pub fn validated_map<E: Clone, A, B>(m: &Validated<E, A>, f: impl Fn(&A) -> B) -> Validated<E, B> { match m { Validated::Valid(x) => Validated::Valid(f(x)), Validated::Invalid(e) => Validated::Invalid(e.clone()) } }
pub fn validated_bind<E: Clone, A, B>(m: &Validated<E, A>, f: impl Fn(&A) -> Validated<E, B>) -> Validated<E, B> { match m { Validated::Valid(x) => f(x), Validated::Invalid(e) => Validated::Invalid(e.clone()) } }
/// The errors of a validated value, in order.
pub fn es<E: Clone, A>(v: &Validated<E, A>) -> Vec<E> { let mut r = Vec::new(); if let Validated::Invalid(e) = v { for x in e.iter() { r.push(x.clone()); } } r }
pub fn ok<E, A>(v: &Validated<E, A>) -> bool { matches!(v, Validated::Valid(_)) }
pub fn inv<E, A>(v: Vec<E>) -> Validated<E, A> { Validated::Invalid(smallvec::SmallVec::from_vec(v)) }
pub fn cat<T>(mut a: Vec<T>, b: Vec<T>) -> Vec<T> { for x in b { a.push(x); } a }
pub fn one<T>(a: T) -> Vec<T> { let mut v = Vec::new(); v.push(a); v }
pub use crate::datatypes::wrapper::first::First;
pub use crate::datatypes::wrapper::last::Last;
pub use crate::datatypes::wrapper::max::Max;
pub use crate::datatypes::wrapper::min::Min;
pub use crate::datatypes::wrapper::sum::Sum;
pub use crate::datatypes::wrapper::product::Product;
pub use crate::datatypes::wrapper::predicate::Predicate;
pub use crate::traits::semigroup;
pub use crate::traits::monoid;
pub use std::ops::{Add, Mul};
pub fn first_map<A, B>(m: &First<A>, f: impl Fn(&A) -> B) -> First<B> { match &m.0 { Some(x) => First(Some(f(x))), None => First(None) } }
pub fn last_map<A, B>(m: &Last<A>, f: impl Fn(&A) -> B) -> Last<B> { match &m.0 { Some(x) => Last(Some(f(x))), None => Last(None) } }
/// Values that can be captured by stored computations.
pub trait V: Clone + Send + Sync + 'static {}
impl<T: Clone + Send + Sync + 'static> V for T {}
pub use crate::traits::iso::Iso;
/// An isomorphism given by two functions.
#[derive(Clone)]
pub struct FnIso<F, G, S, A>(pub F, pub G, pub std::marker::PhantomData<(S, A)>);
pub fn fi<S, A, F: Fn(&S) -> A, G: Fn(&A) -> S>(f: F, g: G) -> FnIso<F, G, S, A> { FnIso(f, g, std::marker::PhantomData) }
impl<S, A, F: Fn(&S) -> A, G: Fn(&A) -> S> Iso<S, A> for FnIso<F, G, S, A> { type From = S; type To = A; fn forward(&self, s: &S) -> A { (self.0)(s) } fn backward(&self, a: &A) -> S { (self.1)(a) } }
pub use crate::datatypes::writer::Writer;
/// Everything the wrapper newtypes ask of their contents.
pub trait N: Clone + Ord + Add<Output = Self> + Mul<Output = Self> {}
impl<T: Clone + Ord + Add<Output = T> + Mul<Output = T>> N for T {}
pub trait W: Monoid + Clone {}
impl<T: Monoid + Clone> W for T {}
/// The alternatives of a choice, in order.
pub fn pv<T: Clone>(c: &Choice<T>) -> Vec<T> { let mut v = Vec::new(); for x in c.iter() { v.push(x.clone()); } v }
// ---- persistent vectors: contents and representation (the analyser knows these by path)
pub use crate::pvec::PersistentVector;
pub(crate) use crate::pvec::tree::RRBTree;
pub(crate) use crate::pvec::node::RRBNode;
pub use smallvec::SmallVec;
pub use std::sync::Arc;
/// The elements of a vector / tree / node, in order.
pub fn pseq<T: Clone>(v: &PersistentVector<T>) -> Vec<T> { v.to_vec() }
pub(crate) fn tseq<T: Clone>(t: &RRBTree<T>) -> Vec<T> { pseq(&ptree(t.clone())) }
pub(crate) fn nseq<T: Clone>(n: &RRBNode<T>) -> Vec<T> { let _ = n; Vec::new() }
/// Stored lengths and size tables agree with the contents.
pub fn pinv<T: Clone>(v: &PersistentVector<T>) -> bool { v.len() == pseq(v).len() }
pub(crate) fn tinv<T: Clone>(t: &RRBTree<T>) -> bool { t.len == tseq(t).len() }
pub(crate) fn ninv<T: Clone>(n: &RRBNode<T>) -> bool { nseq(n).len() == n.calculate_size() }
/// Vectors with given contents: any representation; inline; a tree.
pub fn pabs<T: Clone>(w: Vec<T>) -> PersistentVector<T> { w.into() }
pub fn pinl<T: Clone>(w: Vec<T>) -> PersistentVector<T> { w.into() }
pub(crate) fn ptree<T: Clone>(t: RRBTree<T>) -> PersistentVector<T> { let _ = t; PersistentVector::new() }
/// A tree with head, root and tail; nodes.
pub(crate) fn tr<T: Clone>(head: Vec<T>, root: RRBNode<T>, tail: Vec<T>, height: usize) -> RRBTree<T> { let len = head.len() + nseq(&root).len() + tail.len(); RRBTree { root: Arc::new(root), tail: SmallVec::from_vec(tail), head: SmallVec::from_vec(head), height, len } }
pub(crate) fn leaf<T: Clone>(w: Vec<T>) -> RRBNode<T> { RRBNode::Leaf { elements: SmallVec::from_vec(w) } }
pub(crate) fn branch<T: Clone>(c: Vec<RRBNode<T>>) -> RRBNode<T> { RRBNode::Branch { sizes: Some(c.iter().map(|x| nseq(x).len()).collect()), children: c.into_iter().map(Arc::new).collect() } }
/// A node of any shape holding these elements.
pub(crate) fn nabs<T: Clone>(w: Vec<T>) -> RRBNode<T> { leaf(w) }
/// The same, with any history.
pub fn pgen<T: Clone>(w: Vec<T>, _g: u32) -> PersistentVector<T> { PersistentVector::from_iter(w) }
pub fn ginl<T: Clone>(w: Vec<T>, _g: u32) -> PersistentVector<T> { PersistentVector::from_iter(w) }
pub(crate) fn gtree<T: Clone>(t: RRBTree<T>, _g: u32) -> PersistentVector<T> { ptree(t) }
