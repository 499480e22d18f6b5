//! Kani harnesses, one feature per property: a change that breaks one set of stubs leaves the others usable.
#![allow(dead_code, unused_imports, static_mut_refs)]
#[cfg(all(kani, feature = "c07"))]
mod numeric;
