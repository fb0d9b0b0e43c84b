//! Reference side of the monitors: an independent description of what templito is meant to do.
//! Nothing in this crate depends on templito, so it is built once by setup and is never influenced
//! by a change to the code under test.
pub mod ast;
pub mod funcs;
pub mod gen;
pub mod interp;
pub mod print;
pub mod rng;
pub mod val;
pub mod splice;
pub mod near;
