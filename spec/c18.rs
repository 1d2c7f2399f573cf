use super::refs::*;
use crate::error::context::*;
use crate::error::types::{ComposableError, IntoErrorContext, LazyContext, ErrorContext};
// (contexts newest first, code, original error)
pub fn cp<E>(c: ComposableError<E>) -> (Vec<String>, Option<u32>, E) { let k = c.context(); let n = c.error_code(); (k, n, c.core_error) }
pub fn rp<T, E>(r: Result<T, Box<ComposableError<E>>>) -> Result<T, (Vec<String>, Option<u32>, E)> { match r { Ok(x) => Ok(x), Err(b) => Err(cp(*b)) } }
pub fn cx<C: IntoErrorContext>(c: C) -> String { c.into_error_context().message().to_string() }
pub fn rv<T>(v: Vec<T>) -> Vec<T> { let mut r = Vec::new(); for x in v.into_iter().rev() { r.push(x); } r }
law!{ new [E] (e: E) -> (Vec<String>, Option<u32>, E) ; cp(ComposableError::new(e)) ; (Vec::new(), None, e) }
law!{ with_code [E] (e: E, n: u32) -> (Vec<String>, Option<u32>, E) ; cp(ComposableError::with_code(e, n)) ; (Vec::new(), Some(n), e) }
law!{ set_code [E] (c: ComposableError<E>, n: u32) -> (Vec<String>, Option<u32>, E) ; cp(c.set_code(n)) ; { let k = c.context(); (k, Some(n), c.core_error) } }
law!{ with_context [E, C: IntoErrorContext] (c: ComposableError<E>, x: C) -> (Vec<String>, Option<u32>, E) ; cp(c.with_context(x)) ; { let mut k = one(cx(x)); for s in c.context() { k.push(s); } let n = c.error_code(); (k, n, c.core_error) } }
law!{ with_contexts [E] (c: ComposableError<E>, xs: Vec<String>) -> (Vec<String>, Option<u32>, E) ; cp(c.with_contexts(xs)) ; { let mut k = rv(xs); for s in c.context() { k.push(s); } let n = c.error_code(); (k, n, c.core_error) } }
law!{ with_contexts_any [E, IT: Iterator<Item = String> + Clone] (c: ComposableError<E>, xs: IT) -> (Vec<String>, Option<u32>, E) ; cp(c.with_contexts(xs)) ; { let xs: Vec<String> = xs.collect(); { let mut k = rv(xs); for s in c.context() { k.push(s); } let n = c.error_code(); (k, n, c.core_error) } } }
law!{ two_contexts [E, C: IntoErrorContext, D: IntoErrorContext] (e: E, x: C, y: D) -> (Vec<String>, Option<u32>, E) ; cp(ComposableError::new(e).with_context(x).with_context(y)) ; { let a = cx(x); let b = cx(y); let mut k = one(b); k.push(a); (k, None, e) } }
law!{ context_iter [E] (c: ComposableError<E>) -> Vec<String> ; c.context_iter().cloned().collect::<Vec<_>>() ; c.context() }
law!{ core_error [E: Clone] (c: &ComposableError<E>) -> E ; c.core_error().clone() ; c.core_error.clone() }
law!{ map_core [E, G, F: FnOnce(E) -> G] (c: ComposableError<E>, f: F) -> (Vec<String>, Option<u32>, G) ; cp(c.map_core(f)) ; { let k = c.context(); let n = c.error_code(); (k, n, f(c.core_error)) } }
law!{ from [E] (e: E) -> (Vec<String>, Option<u32>, E) ; cp(ComposableError::from(e)) ; (Vec::new(), None, e) }
law!{ fn_with_context [E, C: IntoErrorContext] (e: E, x: C) -> (Vec<String>, Option<u32>, E) ; cp(with_context(e, x)) ; (one(cx(x)), None, e) }
law!{ fn_with_context_result [T, E, C: IntoErrorContext] (r: Result<T, E>, x: C) -> Result<T, (Vec<String>, Option<u32>, E)> ; rp(with_context_result(r, x)) ; match r { Ok(v) => Ok(v), Err(e) => Err((one(cx(x)), None, e)) } }
law!{ fn_context_fn [E, C: IntoErrorContext + Clone] (e: E, x: C) -> (Vec<String>, Option<u32>, E) ; cp(context_fn(x.clone())(e)) ; (one(cx(x)), None, e) }
law!{ lazy_context [F: FnOnce() -> String] (f: F) -> String ; cx(LazyContext::new(f)) ; f() }
law!{ error_context_string [] (s: String) -> String ; cx(s) ; s }
law!{ error_context_self [] (s: ErrorContext) -> String ; cx(s) ; s.message().to_string() }
law!{ pipeline_finish [T, E] (r: Result<T, E>) -> Result<T, (Vec<String>, Option<u32>, E)> ; rp(error_pipeline(r).finish()) ; match r { Ok(v) => Ok(v), Err(e) => Err((Vec::new(), None, e)) } }
law!{ pipeline_finish_without_box [T, E, C: IntoErrorContext] (r: Result<T, E>, x: C) -> Result<T, (Vec<String>, Option<u32>, E)> ; match error_pipeline(r).with_context(x).finish_without_box() { Ok(v) => Ok(v), Err(c) => Err(cp(c)) } ; match r { Ok(v) => Ok(v), Err(e) => Err((one(cx(x)), None, e)) } }
law!{ pipeline_with_context [T, E, C: IntoErrorContext] (r: Result<T, E>, x: C) -> Result<T, (Vec<String>, Option<u32>, E)> ; rp(ErrorPipeline::new(r).with_context(x).finish()) ; match r { Ok(v) => Ok(v), Err(e) => Err((one(cx(x)), None, e)) } }
law!{ pipeline_two_contexts [T, E, C: IntoErrorContext, D: IntoErrorContext] (r: Result<T, E>, x: C, y: D) -> Result<T, (Vec<String>, Option<u32>, E)> ; rp(error_pipeline(r).with_context(x).with_context(y).finish()) ; match r { Ok(v) => Ok(v), Err(e) => { let a = cx(x); let b = cx(y); let mut k = one(b); k.push(a); Err((k, None, e)) } } }
law!{ pipeline_lazy_unused [T, E, F: FnOnce() -> String] (v: T, f: F) -> Result<T, (Vec<String>, Option<u32>, E)> ; rp(error_pipeline(Ok(v)).with_context(LazyContext::new(f)).finish()) ; Ok(v) }
law!{ pipeline_map_error [T, E, G, C: IntoErrorContext, F: FnOnce(E) -> G] (r: Result<T, E>, x: C, f: F) -> Result<T, (Vec<String>, Option<u32>, G)> ; rp(error_pipeline(r).with_context(x).map_error(f).finish()) ; match r { Ok(v) => Ok(v), Err(e) => { let k = one(cx(x)); Err((k, None, f(e))) } } }
law!{ pipeline_map [T, E, U, C: IntoErrorContext, F: FnOnce(T) -> U] (r: Result<T, E>, x: C, f: F) -> Result<U, (Vec<String>, Option<u32>, E)> ; rp(error_pipeline(r).with_context(x).map(f).finish()) ; match r { Ok(v) => Ok(f(v)), Err(e) => { let k = one(cx(x)); Err((k, None, e)) } } }
law!{ pipeline_and_then [T, E, U, C: IntoErrorContext, F: FnOnce(T) -> Result<U, E>] (r: Result<T, E>, x: C, f: F) -> Result<U, (Vec<String>, Option<u32>, E)> ; rp(error_pipeline(r).and_then(f).with_context(x).finish()) ; match (match r { Ok(v) => f(v), Err(e) => Err(e) }) { Ok(u) => Ok(u), Err(e) => { let k = one(cx(x)); Err((k, None, e)) } } }
law!{ pipeline_recover [T, E, C: IntoErrorContext, F: FnOnce(E) -> Result<T, E>] (r: Result<T, E>, x: C, f: F) -> Result<T, (Vec<String>, Option<u32>, E)> ; rp(error_pipeline(r).with_context(x).recover(f).finish()) ; match r { Ok(v) => Ok(v), Err(e) => { let k = one(cx(x)); match f(e) { Ok(v) => Ok(v), Err(g) => Err((k, None, g)) } } } }
law!{ accumulate [E, C: IntoErrorContext] (e: E, xs: Vec<C>) -> (Vec<String>, Option<u32>, E) ; cp(accumulate_context(e, xs)) ; { let mut k = Vec::new(); for x in xs { k.push(cx(x)); } (rv(k), None, e) } }
law!{ accumulate_any [E, C: IntoErrorContext, IT: Iterator<Item = C> + Clone] (e: E, xs: IT) -> (Vec<String>, Option<u32>, E) ; cp(accumulate_context(e, xs)) ; { let xs: Vec<C> = xs.collect(); { let mut k = Vec::new(); for x in xs { k.push(cx(x)); } (rv(k), None, e) } } }
law!{ accumulator [E, C: IntoErrorContext + Clone] (e: E, xs: Vec<C>) -> (Vec<String>, Option<u32>, E) ; cp(context_accumulator(xs)(e)) ; { let mut k = Vec::new(); for x in xs { k.push(cx(x)); } (rv(k), None, e) } }
law!{ accumulator_any [E, C: IntoErrorContext + Clone, IT: Iterator<Item = C> + Clone] (e: E, xs: IT) -> (Vec<String>, Option<u32>, E) ; cp(context_accumulator(xs)(e)) ; { let xs: Vec<C> = xs.collect(); { let mut k = Vec::new(); for x in xs { k.push(cx(x)); } (rv(k), None, e) } } }
law!{ extract [E] (c: &ComposableError<E>) -> Vec<String> ; extract_context(c) ; c.context() }
law!{ unwrap_core [E] (c: ComposableError<E>) -> E ; crate::error::composable_to_core(c) ; c.core_error }
law!{ wrap_core [E] (e: E) -> (Vec<String>, Option<u32>, E) ; cp(crate::error::core_to_composable(e)) ; (Vec::new(), None, e) }
law!{ flatten_result [T, E] (r: Result<T, ComposableError<E>>) -> Result<T, E> ; crate::error::convert::flatten_composable_result(r) ; match r { Ok(v) => Ok(v), Err(c) => Err(c.core_error) } }
law!{ wrap_result [T, E] (r: Result<T, E>) -> Result<T, (Vec<String>, Option<u32>, E)> ; match crate::error::convert::wrap_in_composable_result(r) { Ok(v) => Ok(v), Err(c) => Err(cp(c)) } ; match r { Ok(v) => Ok(v), Err(e) => Err((Vec::new(), None, e)) } }
law!{ wrap_result_boxed [T, E] (r: Result<T, E>) -> Result<T, (Vec<String>, Option<u32>, E)> ; rp(crate::error::convert::wrap_in_composable_result_boxed(r)) ; match r { Ok(v) => Ok(v), Err(e) => Err((Vec::new(), None, e)) } }
law!{ app_error [M: Clone, C: Clone] (m: M, c: C) -> (M, Option<C>) ; { let a = crate::utils::error_utils::error_with_context(m, c); (a.message().clone(), a.context().cloned()) } ; (m, Some(c)) }
law!{ app_error_plain [M: Clone] (m: M) -> (M, Option<()>) ; { let a = crate::utils::error_utils::error(m); (a.message().clone(), a.context().cloned()) } ; (m, None) }
law!{ app_error_map [M, C: Clone, N: Clone, F: FnOnce(M) -> N] (a: crate::utils::error_utils::AppError<M, C>, f: F) -> (N, Option<C>) ; { let b = a.map(f); (b.message().clone(), b.context().cloned()) } ; { let c = a.context().cloned(); let mut n = None; a.map(|m| { n = Some(f(m)); }); (n.unwrap(), c) } }
law!{ app_error_map_context [M: Clone, C, D: Clone, F: FnOnce(Option<C>) -> Option<D>] (a: crate::utils::error_utils::AppError<M, C>, f: F, c: C, m: M) -> (M, Option<D>) ; { let b = crate::utils::error_utils::error_with_context(m, c).map_context(f); (b.message().clone(), b.context().cloned()) } ; (m, f(Some(c))) }
law!{ io_pipeline [A: V, F: Fn() -> A + V, C: IntoErrorContext] (f: F, x: C) -> Result<A, Vec<String>> ; match crate::datatypes::io::IO::new(f).into_error_pipeline().with_context(x).finish() { Ok(a) => Ok(a), Err(e) => Err(e.core_error.context()) } ; match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f())) { Ok(a) => Ok(a), Err(_) => { let _ = cx(x); Err(Vec::new()) } } }
vlaw!{ error_chain [E: std::fmt::Display] (c: &ComposableError<E>) -> String ; c.error_chain() ; { let mut s = String::new(); for k in c.context() { s.push_str(&k); s.push_str(" -> "); } s.push_str(&format!("{}", c.core_error)); if let Some(n) = c.error_code() { s.push_str(&format!(" (code: {})", n)); } s } }
vlaw!{ format_error_chain [E: std::fmt::Display] (c: &ComposableError<E>) -> String ; format_error_chain(c) ; { let mut s = String::new(); for k in c.context() { s.push_str(&k); s.push_str(" -> "); } s.push_str(&format!("{}", c.core_error)); if let Some(n) = c.error_code() { s.push_str(&format!(" (code: {})", n)); } s } }
law!{ context_macro [D: std::fmt::Display] (a: String, d: D) -> String ; cx(crate::context!("step {} of {}", d, a)) ; { let mut t = String::from("step "); t.push_str(&d.to_string()); t.push_str(" of "); t.push_str(&a); t } }
law!{ context_macro_unused [T, E, D: std::fmt::Display] (v: T, d: D) -> Result<T, (Vec<String>, Option<u32>, E)> ; rp(error_pipeline(Ok(v)).with_context(crate::context!("got {}", d)).finish()) ; Ok(v) }
law!{ context_macro_used [T, E] (e: E, d: String) -> Result<T, (Vec<String>, Option<u32>, E)> ; rp(error_pipeline(Err(e)).with_context(crate::context!("got {}", d)).finish()) ; { let mut t = String::from("got "); t.push_str(&d); Err((vec![t], None, e)) } }
