//! Verification harnesses for barbarosa. Every harness is executed symbolically by
//! `/verif/engine` (as LLVM IR), and natively by the `replay` binary on a counterexample.
#![allow(unexpected_cfgs, clippy::all, static_mut_refs)]

#[cfg(barbarosa_verif)]
pub mod big;
#[cfg(any(feature = "c14", feature = "c15"))]
pub mod fs;
pub mod geo;
#[cfg(any(feature = "c14", feature = "c15"))]
pub mod table;
#[cfg(any(feature = "c16", feature = "c17"))]
pub mod toy;
pub mod vf;

/// Defines harnesses, and `run` to call one by name
#[macro_export]
macro_rules! harnesses {
    ($($(#[$m:meta])* $name:ident $body:block)*) => {
        $( $(#[$m])* #[no_mangle] pub extern "C" fn $name() $body )*
        pub fn run(name: &str) -> bool {
            match name {
                $( stringify!($name) => $name(), )*
                _ => return false,
            }
            true
        }
    };
}

macro_rules! modules {
    ($($m:ident $f:literal)*) => {
        $( #[cfg(feature = $f)] pub mod $m; )*
        /// Runs a harness by name
        #[allow(unused_variables)]
        pub fn run(name: &str) -> bool {
            $( #[cfg(feature = $f)] if $m::run(name) { return true; } )*
            false
        }
    };
}

modules! {
    c01 "c01" c02 "c02" c03 "c03" c04 "c04" c05 "c05" c06 "c06" c07 "c07" c08 "c08" c09 "c09" c10 "c10"
    c11 "c11" c12 "c12" c13 "c13" c14 "c14" c15 "c15" c16 "c16" c17 "c17" c18 "c18" c19 "c19" c20 "c20"
    c21 "c21" c22 "c22" c23 "c23" c24 "c24" c25 "c25" c26 "c26"
}
