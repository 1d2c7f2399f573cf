use super::refs::*;
use crate::utils::error_utils as eu;
use crate::utils::categorical_utils as cu;
use crate::utils::transform_utils as tu;
use crate::utils::hkt_utils as hu;
law!{ sequence [A, E] (v: Vec<Result<A, E>>) -> Result<Vec<A>, E> ; eu::sequence(v) ; { let mut r = Vec::new(); for x in v { match x { Ok(y) => r.push(y), Err(e) => return Err(e) } } Ok(r) } }
law!{ traverse [A, B, E, F: Fn(A) -> Result<B, E>] (v: Vec<A>, f: F) -> Result<Vec<B>, E> ; eu::traverse(v, |x| f(x)) ; { let mut r = Vec::new(); for x in v { match f(x) { Ok(y) => r.push(y), Err(e) => return Err(e) } } Ok(r) } }
law!{ traverse_any [A, B, E, F: Fn(A) -> Result<B, E>, IT: Iterator<Item = A> + Clone] (v: IT, f: F) -> Result<Vec<B>, E> ; eu::traverse(v, |x| f(x)) ; { let v: Vec<A> = v.collect(); { let mut r = Vec::new(); for x in v { match f(x) { Ok(y) => r.push(y), Err(e) => return Err(e) } } Ok(r) } } }
law!{ traverse_validated [A, B, E: Clone, F: Fn(A) -> Result<B, E>] (v: Vec<A>, f: F) -> Validated<E, Vec<B>> ; eu::traverse_validated(v, |x| f(x)) ; { let mut r = Vec::new(); let mut e = Vec::new(); for x in v { match f(x) { Ok(y) => r.push(y), Err(g) => e.push(g) } } if e.is_empty() { Validated::Valid(r) } else { inv(e) } } }
law!{ traverse_validated_any [A, B, E: Clone, F: Fn(A) -> Result<B, E>, IT: Iterator<Item = A> + Clone] (v: IT, f: F) -> Validated<E, Vec<B>> ; eu::traverse_validated(v, |x| f(x)) ; { let v: Vec<A> = v.collect(); { let mut r = Vec::new(); let mut e = Vec::new(); for x in v { match f(x) { Ok(y) => r.push(y), Err(g) => e.push(g) } } if e.is_empty() { Validated::Valid(r) } else { inv(e) } } } }
law!{ sequence_with_error [A: Clone + Into<T>, T, E: Clone] (v: Vec<Result<A, E>>) -> Result<Vec<T>, E> ; eu::sequence_with_error(v) ; { let mut r = Vec::new(); for x in v { match x { Ok(y) => r.push(y.into()), Err(e) => return Err(e) } } Ok(r) } }
law!{ sequence_with_error_either [A: Clone + Into<T>, T, E: Clone] (v: Vec<Either<E, A>>) -> Result<Vec<T>, E> ; eu::sequence_with_error(v) ; { let mut r = Vec::new(); for x in v { match x { Either::Right(y) => r.push(y.into()), Either::Left(e) => return Err(e) } } Ok(r) } }
law!{ sequence_options [A] (v: Vec<Option<A>>) -> Option<Vec<A>> ; cu::sequence_options(v) ; { let mut r = Vec::new(); for x in v { match x { Some(y) => r.push(y), None => return None } } Some(r) } }
law!{ sequence_results [A, E] (v: Vec<Result<A, E>>) -> Result<Vec<A>, E> ; cu::sequence_results(v) ; { let mut r = Vec::new(); for x in v { match x { Ok(y) => r.push(y), Err(e) => return Err(e) } } Ok(r) } }
law!{ map_option [A, B, F: FnOnce(A) -> B] (m: Option<A>, f: F) -> Option<B> ; cu::map_option(m, f) ; match m { Some(x) => Some(f(x)), None => None } }
law!{ map_result [A, B, E, F: FnOnce(A) -> B] (m: Result<A, E>, f: F) -> Result<B, E> ; cu::map_result(m, f) ; match m { Ok(x) => Ok(f(x)), Err(e) => Err(e) } }
law!{ bimap_result [A, B, E, G, F: FnOnce(A) -> B, H: FnOnce(E) -> G] (m: Result<A, E>, f: F, h: H) -> Result<B, G> ; cu::bimap_result(m, f, h) ; match m { Ok(x) => Ok(f(x)), Err(e) => Err(h(e)) } }
law!{ flat_map_option [A, B, F: FnOnce(A) -> Option<B>] (m: Option<A>, f: F) -> Option<B> ; cu::flat_map_option(m, f) ; match m { Some(x) => f(x), None => None } }
law!{ flat_map_result [A, B, E, F: FnOnce(A) -> Result<B, E>] (m: Result<A, E>, f: F) -> Result<B, E> ; cu::flat_map_result(m, f) ; match m { Ok(x) => f(x), Err(e) => Err(e) } }
law!{ filter_map_collect [A, B, F: Fn(A) -> Option<B>] (v: Vec<A>, f: F) -> Vec<B> ; cu::filter_map_collect(v, f) ; { let mut r = Vec::new(); for x in v { if let Some(y) = f(x) { r.push(y); } } r } }
law!{ filter_map_collect_any [A, B, F: Fn(A) -> Option<B>, IT: Iterator<Item = A> + Clone] (v: IT, f: F) -> Vec<B> ; cu::filter_map_collect(v, f) ; { let v: Vec<A> = v.collect(); { let mut r = Vec::new(); for x in v { if let Some(y) = f(x) { r.push(y); } } r } } }
vlaw!{ fold_with [A, W: From<A> + Monoid + Clone] (v: Vec<A>) -> W ; cu::fold_with(v) ; { let mut r: Option<W> = None; for x in v { r = match r { None => Some(W::from(x)), Some(a) => Some(a.combine(&W::from(x))) }; } match r { Some(a) => a, None => W::empty() } } }
vlaw!{ fold_with_any [A, W: From<A> + Monoid + Clone, IT: Iterator<Item = A> + Clone] (v: IT) -> W ; cu::fold_with(v) ; { let v: Vec<A> = v.collect(); { let mut r: Option<W> = None; for x in v { r = match r { None => Some(W::from(x)), Some(a) => Some(a.combine(&W::from(x))) }; } match r { Some(a) => a, None => W::empty() } } } }
law!{ hkt_filter_map [A, B, P: Fn(&A) -> bool, F: Fn(A) -> B] (v: Vec<A>, p: P, f: F) -> Vec<B> ; hu::filter_map(v, p, f) ; { let mut r = Vec::new(); for x in v { if p(&x) { r.push(f(x)); } } r } }
law!{ hkt_filter_map_any [A, B, P: Fn(&A) -> bool, F: Fn(A) -> B, IT: Iterator<Item = A> + Clone] (v: IT, p: P, f: F) -> Vec<B> ; hu::filter_map(v, p, f) ; { let v: Vec<A> = v.collect(); { let mut r = Vec::new(); for x in v { if p(&x) { r.push(f(x)); } } r } } }
law!{ zip_with [A, B, C, F: Fn(A, B) -> C] (v: Vec<A>, w: Vec<B>, f: F) -> Vec<C> ; hu::zip_with(v, w, f) ; { let mut r = Vec::new(); for (x, y) in v.into_iter().zip(w.into_iter()) { r.push(f(x, y)); } r } }
law!{ pipeline_option [A: Into<B>, B, F: Fn(B) -> Option<B>] (a: A, v: Vec<F>) -> Option<B> ; hu::pipeline_option(a, v) ; { let mut r: B = a.into(); for f in v { match f(r) { Some(y) => r = y, None => return None } } Some(r) } }
law!{ pipeline_result [A: Into<B>, B, E, F: Fn(B) -> Result<B, E>] (a: A, v: Vec<F>) -> Result<B, E> ; hu::pipeline_result(a, v) ; { let mut r: B = a.into(); for f in v { match f(r) { Ok(y) => r = y, Err(e) => return Err(e) } } Ok(r) } }
law!{ try_pipeline [A: Into<B>, B, E, F: Fn(B) -> Result<B, E>] (a: A, v: Vec<F>) -> Result<B, E> ; hu::try_pipeline(a, v) ; { let mut r: B = a.into(); for f in v { match f(r) { Ok(y) => r = y, Err(e) => return Err(e) } } Ok(r) } }
law!{ lift_option [A, B, F: Fn(A) -> B] (m: Option<A>, f: F) -> Option<B> ; hu::lift_option(f)(m) ; match m { Some(x) => Some(f(x)), None => None } }
law!{ hkt_map_result [A, B, E, F: Fn(A) -> B] (m: Result<A, E>, f: F) -> Result<B, E> ; hu::map_result(m, f) ; match m { Ok(x) => Ok(f(x)), Err(e) => Err(e) } }
law!{ fan_out [A: Clone, B, F: Fn(A) -> B] (a: A, v: Vec<F>) -> Vec<B> ; hu::fan_out(a, v) ; { let mut r = Vec::new(); for f in v { r.push(f(a.clone())); } r } }
law!{ transform_all_option [A: Clone, B: Clone, F: Fn(&A) -> B + Copy] (v: Vec<Option<A>>, f: F) -> Vec<Option<B>> ; tu::transform_all(&v, f) ; { let mut r = Vec::new(); for x in v.iter() { r.push(option_map(x, f)); } r } }
law!{ transform_chain_option [A: Clone, B: Clone, F: Fn(&A) -> B] (m: Option<Result<A, u8>>, f: F) -> Option<Result<B, u8>> ; tu::transform_chain(m, f) ; match m { Some(x) => Some(result_map(&x, f)), None => None } }
law!{ pipeline_map [A: Clone, B: Clone, F: Fn(&A) -> B] (m: Option<A>, f: F) -> Option<B> ; tu::Pipeline::new(m).map(f).extract() ; option_map(&m, f) }
law!{ pipeline_map_owned [A: Clone, B: Clone, F: Fn(A) -> B] (m: Option<A>, f: F) -> Option<B> ; tu::Pipeline::new(m).map_owned(f).extract() ; match m { Some(x) => Some(f(x)), None => None } }
law!{ pipeline_iter [A] (v: Vec<A>) -> Vec<A> ; { let mut r = Vec::new(); for x in tu::Pipeline::new(v) { r.push(x); } r } ; v }
