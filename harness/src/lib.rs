//! Harnesses: each drives the real fourleaf code with symbolic inputs and
//! states a property as assertions over them.  `symex` executes their compiled
//! form symbolically; `replay` runs the same functions natively on the concrete
//! inputs of a counterexample or of a sampled path.
#![allow(dead_code, unused_imports, unused_macros, static_mut_refs)]

#[macro_use]
extern crate fourleaf;
#[macro_use]
pub mod sym;
pub mod model;
#[cfg(feature = "schema")]
#[macro_use]
pub mod schema;

macro_rules! modules {
    ($($feat:literal $name:ident;)*) => {
        $(#[cfg(feature = $feat)] pub mod $name;)*
        pub fn table() -> Vec<(&'static str, extern "C" fn())> {
            let mut v: Vec<(&'static str, extern "C" fn())> = Vec::new();
            $(#[cfg(feature = $feat)] v.extend_from_slice($name::TABLE);)*
            v
        }
    }
}
modules! {
    "wire" wire;
    "parse" parse;
    "blob" blob;
    "write" write;
    "ser" ser;
    "de" de;
    "typed" typed;
    "arr" arr;
    "misc" misc;
    "edit" edit;
    "big" big;
    "bigt" bigt;
    "long" long;
}
