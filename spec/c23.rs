//! A vector shared between threads is shareable because nothing in it can be written.
#![allow(dead_code)]
use super::refs::*;
fn is<T: Send + Sync>() {}
macro_rules! wit { ($n:ident [$($g:tt)*] $t:ty) => { pub fn $n<$($g)*>() { is::<$t>() } } }
pub trait XC: Send + Sync + Clone + 'static {}
wit!(wit_persistent_vector [T: XC] crate::pvec::PersistentVector<T>);
wit!(wit_persistent_vector_iter ['a, T: XC] crate::pvec::PersistentVectorIter<'a, T>);
wit!(wit_persistent_vector_into_iter [T: XC] crate::pvec::PersistentVectorIntoIter<T>);
