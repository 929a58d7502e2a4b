//! Shared parts of the runtime monitors: case-addressable PRNG, reference
//! arithmetic, workload generation, the monitored-run driver and the evidence writer.
pub mod rng;
pub mod num;
pub mod refm;
pub mod work;
pub mod driver;
pub mod elem;
pub mod nets;
pub mod grads;
pub mod train;

pub use driver::{main, Ctx, Outcome, Stage};
pub use num::{Prec, Z};
pub use rng::Rng;
