#![allow(deprecated)]
#[macro_use]
mod mac {
    /// declares harnesses: extern "C" entry points for the engine and a table for native replay
    #[macro_export]
    macro_rules! harnesses {
        ($($(#[$m:meta])* fn $n:ident() $b:block)*) => {
            $($(#[$m])* #[no_mangle] pub extern "C" fn $n() { body::$n() })*
            mod body {
                #[allow(unused_imports)]
                use super::*;
                $(#[inline(never)] pub fn $n() $b)*
            }
            pub const HS: &[(&str, extern "C" fn())] = &[$((stringify!($n), $n as extern "C" fn())),*];
        };
    }
}
pub mod sx;
pub mod util;
pub mod text;
pub mod fold;
pub mod params;
pub mod parse;
pub mod structure;
pub mod values;
pub mod dates;
pub mod json;
pub mod wide;
pub mod api;
pub const HARNESSES: &[&[(&str, extern "C" fn())]] = &[text::HS, fold::HS, params::HS, parse::HS, structure::HS, values::HS, dates::HS, json::HS, wide::HS, api::HS];
