//! Stand-in for base64 0.13 (what the generated code names) over the installed base64 0.22: same item names.
pub use base64x::engine::general_purpose::GeneralPurpose;
pub const STANDARD: &GeneralPurpose = &base64x::engine::general_purpose::STANDARD;
pub mod read { pub use base64x::read::DecoderReader; }
pub mod write { pub use base64x::write::EncoderWriter; }
pub use base64x::Engine;
