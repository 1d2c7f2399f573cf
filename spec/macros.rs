//! Reference flows and laws. Compiled into the analysed crate, in memory, by the driver.
//! `law!`  : both sides must have the same value-flow AND perform the same calls in the same order.
//! `vlaw!` : both sides must have the same value-flow.
macro_rules! law {
    ($name:ident [$($g:tt)*] ($($a:tt)*) -> $r:ty ; $l:expr ; $rr:expr) => {
        pub mod $name {
            use super::*;
            pub fn l<$($g)*>($($a)*) -> $r { $l }
            pub fn r<$($g)*>($($a)*) -> $r { $rr }
        }
    };
}
macro_rules! vlaw {
    ($name:ident [$($g:tt)*] ($($a:tt)*) -> $r:ty ; $l:expr ; $rr:expr) => {
        pub mod $name {
            use super::*;
            pub fn vl<$($g)*>($($a)*) -> $r { $l }
            pub fn vr<$($g)*>($($a)*) -> $r { $rr }
        }
    };
}
macro_rules! root {
    ($name:ident [$($g:tt)*] ($($a:tt)*) -> $r:ty ; $l:expr) => {
        pub mod $name {
            use super::*;
            pub fn l<$($g)*>($($a)*) -> $r { $l }
        }
    };
}
