//! Auto-trait witnesses: each line compiles only if the named type can be sent to and shared
//! between threads whenever its contents can.
#![allow(dead_code)]
use super::refs::*;
fn is<T: Send + Sync>() {}
macro_rules! wit { ($n:ident [$($g:tt)*] $t:ty) => { pub fn $n<$($g)*>() { is::<$t>() } } }
pub trait X: Send + Sync + 'static {}
pub trait XC: Send + Sync + Clone + 'static {}

wit!(wit_persistent_vector [T: XC] crate::pvec::PersistentVector<T>);
wit!(wit_persistent_vector_iter ['a, T: XC] crate::pvec::PersistentVectorIter<'a, T>);
wit!(wit_persistent_vector_into_iter [T: XC] crate::pvec::PersistentVectorIntoIter<T>);
wit!(wit_async_m [A: XC] crate::datatypes::async_monad::AsyncM<A>);
wit!(wit_choice [T: X] Choice<T>);
wit!(wit_cont [R: XC, A: XC] crate::datatypes::cont::Cont<R, A>);
wit!(wit_cont_t [R: XC, M: XC, A: XC] crate::transformers::cont_t::ContT<R, M, A>);
wit!(wit_either [L: X, R: X] Either<L, R>);
wit!(wit_id [T: X] Id<T>);
wit!(wit_io [A: XC] crate::datatypes::io::IO<A>);
wit!(wit_io_error [] crate::datatypes::io::IOError);
wit!(wit_iso_lens [S: X, A: X, L: crate::traits::iso::Iso<S, A, From = S, To = A> + Send + Sync] crate::datatypes::iso_lens::IsoLens<S, A, L>);
wit!(wit_iso_prism [S: X, A: X, L: crate::traits::iso::Iso<S, Option<A>, From = S, To = Option<A>> + Send + Sync] crate::datatypes::iso_prism::IsoPrism<S, A, L>);
wit!(wit_lens [S: X, A: X, G: Fn(&S) -> A + Send + Sync, P: Fn(S, A) -> S + Send + Sync] crate::datatypes::lens::Lens<S, A, G, P>);
wit!(wit_prism [S: X, A: X, G: Fn(&S) -> Option<A> + Send + Sync, P: Fn(&A) -> S + Send + Sync] crate::datatypes::prism::Prism<S, A, G, P>);
wit!(wit_maybe [T: X] Maybe<T>);
wit!(wit_reader [E: XC, A: XC] crate::datatypes::reader::Reader<E, A>);
wit!(wit_reader_t [E: XC, M: XC, A: XC] crate::transformers::reader_t::ReaderT<E, M, A>);
wit!(wit_state [S: XC, A: XC] crate::datatypes::state::State<S, A>);
wit!(wit_state_t [S: XC, M: XC, A: XC] crate::transformers::state_t::StateT<S, M, A>);
wit!(wit_validated [E: X, A: X] crate::datatypes::validated::Validated<E, A>);
wit!(wit_first [T: X] crate::datatypes::wrapper::first::First<T>);
wit!(wit_last [T: X] crate::datatypes::wrapper::last::Last<T>);
wit!(wit_max [T: X + Ord] crate::datatypes::wrapper::max::Max<T>);
wit!(wit_min [T: X + Ord] crate::datatypes::wrapper::min::Min<T>);
wit!(wit_memoizer [K: XC + Eq + std::hash::Hash, T: XC] crate::datatypes::wrapper::memoizer::Memoizer<K, T>);
wit!(wit_product [T: X] crate::datatypes::wrapper::product::Product<T>);
wit!(wit_sum [T: X] crate::datatypes::wrapper::sum::Sum<T>);
wit!(wit_thunk [T: X, F: Fn() -> T + Send + Sync] crate::datatypes::wrapper::thunk::Thunk<F, T>);
wit!(wit_writer [W: X + crate::traits::monoid::Monoid, A: X] crate::datatypes::writer::Writer<W, A>);
wit!(wit_error_pipeline [T: X, E: X] crate::error::context::ErrorPipeline<T, E>);
wit!(wit_composable_error [E: X] crate::error::types::ComposableError<E>);
wit!(wit_error_context [] crate::error::types::ErrorContext);
wit!(wit_pipeline [T: X] crate::utils::transform_utils::Pipeline<T>);
wit!(wit_app_error [M: X, C: X] crate::utils::error_utils::AppError<M, C>);
