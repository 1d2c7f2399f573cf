//! Text forms: Display and Debug write everything a value holds, once, in order, in the documented frame.
//@also c18: error_chain
use super::refs::*;
use std::fmt::Display;
#[allow(deprecated)]
use crate::datatypes::maybe::MaybeError;
use crate::datatypes::io::IOError;
use crate::error::types::{ComposableError, ErrorContext};
use crate::pvec::PVecError;
use crate::utils::error_utils::{error_with_context, error, AppError};
use crate::datatypes::wrapper::{first::First, last::Last, max::Max, min::Min, product::Product, sum::Sum};
pub fn sep<T: Display>(xs: &[T]) -> String { let mut s = String::new(); let mut n = false; for x in xs { if n { s.push_str(", "); } n = true; s.push_str(&format!("{}", x)); } s }
vlaw!{ min_display [T: Display] (x: T) -> String ; Min(x).to_string() ; format!("Min({})", x) }
vlaw!{ max_display [T: Display] (x: T) -> String ; Max(x).to_string() ; format!("Max({})", x) }
vlaw!{ sum_display [T: Display] (x: T) -> String ; Sum(x).to_string() ; format!("Sum({})", x) }
vlaw!{ product_display [T: Display] (x: T) -> String ; Product(x).to_string() ; format!("Product({})", x) }
vlaw!{ min_debug [T: Debug] (x: T) -> String ; format!("{:?}", Min(x)) ; format!("Min({:?})", x) }
vlaw!{ max_debug [T: Debug] (x: T) -> String ; format!("{:?}", Max(x)) ; format!("Max({:?})", x) }
vlaw!{ sum_debug [T: Debug] (x: T) -> String ; format!("{:?}", Sum(x)) ; format!("Sum({:?})", x) }
vlaw!{ product_debug [T: Debug] (x: T) -> String ; format!("{:?}", Product(x)) ; format!("Product({:?})", x) }
vlaw!{ first_display [T: Display] (x: Option<T>) -> String ; First(x).to_string() ; match x { Some(v) => format!("First(Some({}))", v), None => String::from("First(None)") } }
vlaw!{ last_display [T: Display] (x: Option<T>) -> String ; Last(x).to_string() ; match x { Some(v) => format!("Last(Some({}))", v), None => String::from("Last(None)") } }
vlaw!{ first_debug [T: Debug] (x: T) -> String ; format!("{:?}", First(Some(x))) ; format!("First({:?})", Some(x)) }
vlaw!{ last_debug [T: Debug] (x: T) -> String ; format!("{:?}", Last(Some(x))) ; format!("Last({:?})", Some(x)) }
vlaw!{ io_error_other [] (m: String) -> String ; IOError::Other(m).to_string() ; format!("IO Error: {}", m) }
vlaw!{ io_error_unset [] () -> String ; IOError::ValueNotSet.to_string() ; String::from("Value not set") }
vlaw!{ maybe_error_custom [] (m: String) -> String ; MaybeError::Custom(m).to_string() ; m }
vlaw!{ maybe_error_missing [] () -> String ; MaybeError::ValueNotPresent.to_string() ; String::from("Attempted to access a value in a Nothing") }
vlaw!{ choice_empty [T: Clone + Display] () -> String ; Choice::<T>::new_empty().to_string() ; String::new() }
vlaw!{ choice_display [T: Clone + Display] (x: T, xs: Vec<T>) -> String ; Choice::new(x, xs).to_string() ; if xs.is_empty() { format!("{}", x) } else { format!("{} | {}", x, sep(&xs)) } }
vlaw!{ error_display [E: Display] (e: E, a: String, b: String) -> String ; ComposableError::new(e).with_context(a).with_context(b).to_string() ; format!("{} -> {} -> {}", b, a, e) }
vlaw!{ error_display_code [E: Display] (e: E, a: String, n: u32) -> String ; ComposableError::with_code(e, n).with_context(a).to_string() ; format!("{} -> {} (code: {})", a, e, n) }
vlaw!{ error_display_plain [E: Display] (e: E) -> String ; ComposableError::new(e).to_string() ; format!("{}", e) }
vlaw!{ error_display_chain [E: Display] (c: &ComposableError<E>) -> String ; c.to_string() ; c.error_chain() }
vlaw!{ context_display [] (m: String) -> String ; ErrorContext::new(m).to_string() ; m }
vlaw!{ pvec_error_bounds [] (i: usize, n: usize) -> String ; PVecError::IndexOutOfBounds { index: i, len: n }.to_string() ; format!("Index {} out of bounds for vector of length {}", i, n) }
vlaw!{ pvec_error_range [] (i: usize, n: usize) -> String ; PVecError::InvalidRange { start: i, end: n }.to_string() ; format!("Invalid range: start {} is greater than end {}", i, n) }
vlaw!{ app_error_display [M: Debug] (m: M) -> String ; error(m).to_string() ; format!("{:?}", m) }
vlaw!{ app_error_display_context [M: Debug, C: Debug] (m: M, c: C) -> String ; error_with_context(m, c).to_string() ; format!("{:?} (Context: {:?})", m, c) }
vlaw!{ app_error_display_unit [M: Debug, C: Debug] (e: AppError<M, C>) -> String ; e.to_string() ; match e.context() { Some(c) => format!("{:?} (Context: {:?})", e.message(), c), None => format!("{:?}", e.message()) } }
vlaw!{ maybe_debug [T: Debug] (m: Maybe<T>) -> String ; format!("{:?}", m) ; match m { Maybe::Just(x) => format!("Just({:?})", x), Maybe::Nothing => String::from("Nothing") } }
vlaw!{ either_debug [L: Debug, R: Debug] (e: Either<L, R>) -> String ; format!("{:?}", e) ; match e { Either::Left(x) => format!("Left({:?})", x), Either::Right(x) => format!("Right({:?})", x) } }
vlaw!{ validated_debug [A: Debug] (a: A) -> String ; format!("{:?}", Validated::<String, A>::Valid(a)) ; format!("Valid({:?})", a) }
vlaw!{ id_debug [T: Debug] (x: T) -> String ; format!("{:?}", Id::new(x)) ; format!("Id {{ value: {:?} }}", x) }
vlaw!{ io_error_debug [] (m: String) -> String ; format!("{:?}", IOError::Other(m)) ; format!("Other({:?})", m) }
