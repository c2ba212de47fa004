//! Shared machinery of the monitors. Nothing in here uses the code under test.
pub mod big;
pub mod gen;
pub mod mon;
pub mod rng;

pub use big::Big;
pub use mon::{run, Mon};
pub use rng::Rng;
