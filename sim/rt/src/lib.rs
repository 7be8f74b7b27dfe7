//! The simulator: every source of nondeterminism a codec meets (how a stream hands out or takes bytes, errors,
//! readiness, wake-ups, task order, time, memory) is decided by one recorded choice tape.
#![allow(clippy::all)]
pub mod world;
pub mod io;
pub mod exec;
pub mod x;
pub mod alloc;
pub mod codec;
pub mod opaque;
pub use psmodel;
pub use tokio;
pub use codec::*;
pub use io::*;
pub use world::*;
