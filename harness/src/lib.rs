//! Symbolic harnesses over the real dash7 crate. One module per property; every entry point is
//! executed symbolically from its LLVM IR and, for counterexamples and samples, natively.
pub mod gen;
pub mod model;
pub mod sym;
pub mod util;
#[cfg(feature = "utils")]
#[allow(dead_code)]
#[path = "/repo/dash7/src/utils.rs"]
mod utils;
#[cfg(feature = "utils")]
mod app {
    pub mod operation {
        pub use dash7::app::operation::*;
    }
}

/// Stand-in for `alloc::fmt::format`: error messages have no influence on any checked property
/// (the engine redirects `format!` here except in the entries about formatting).
#[no_mangle]
pub extern "C" fn __model_format(out: *mut String) {
    // something to free, where that is what is looked at
    unsafe { out.write(if cfg!(feature = "c26") { String::from("?") } else { String::new() }) }
}

macro_rules! entries {
    ($($name:ident $body:block)*) => {
        $(#[no_mangle] pub extern "C-unwind" fn $name() $body)*
        pub const ENTRIES: &[(&str, extern "C-unwind" fn())] = &[$((stringify!($name), $name)),*];
    };
}
macro_rules! modules {
    ($($f:literal $m:ident),* $(,)?) => {
        $(#[cfg(feature = $f)] pub mod $m;)*
        pub fn entries() -> Vec<(&'static str, extern "C-unwind" fn())> {
            #[allow(unused_mut)]
            let mut v: Vec<(&'static str, extern "C-unwind" fn())> = vec![];
            $(#[cfg(feature = $f)] v.extend_from_slice($m::ENTRIES);)*
            v
        }
    };
}
modules!(
    "c01" c01,
    "c02" c02,
    "c03" c03,
    "c04" c04,
    "c05" c05,
    "c06" c06,
    "c07" c07,
    "c08" c08,
    "c09" c09,
    "c10" c10,
    "c11" c11,
    "c12" c12,
    "c13" c13,
    "c14" c14,
    "c15" c15,
    "c16" c16,
    "c17" c17,
    "c18" c18,
    "c19" c19,
    "c20" c20,
    "c21" c21,
    "c22" c22,
    "c23" c23,
    "c24" c24,
    "c25" c25,
    "c26" c26,
    "utils" c26u,
);
