#![feature(try_trait_v2)]
//! Most-general clients of the goggles API.  This crate is never executed: it is the specification
//! that the abstract interpreter analyses together with the MIR of goggles.
#![allow(dead_code, unused_variables, unused_mut, unreachable_code, static_mut_refs)]
pub mod prim;
pub mod stubs;
pub mod parts;
pub mod sys;
pub mod roots;
