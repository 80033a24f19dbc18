//! Bounded exhaustive exploration of palmtree's real code.
pub mod types;
#[macro_use]
pub mod ops;
pub mod engine;
pub mod bounds;
pub mod faults;
pub mod grow;
pub mod inplace;
pub mod pages;
pub mod plans;
pub mod sched;
