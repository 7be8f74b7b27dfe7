//! Independent executable reference for protospec specifications.
#![allow(clippy::all)]
pub mod ast;
pub mod layout;
pub mod parse;
pub mod tape;
pub mod val;
pub mod eval;
pub mod codec;
pub mod xf;
pub mod genval;
pub mod genspec;
pub mod opq;
pub mod json;
pub mod modular;
pub use ast::*;
pub use tape::Tape;
pub use val::V;
