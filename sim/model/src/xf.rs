//! Reference semantics of the harness's foreign items (transforms, types, functions).
//! `gzip` and `base64` are real transforms of the prelude; their bytes come from injected functions.
use crate::ast::Sc;
use crate::eval::ETy;
use crate::val::V;
pub trait Opaque { fn enc(&self, name: &str, data: &[u8]) -> Option<Vec<u8>>; fn dec(&self, name: &str, data: &[u8]) -> Option<Vec<u8>>; /// decodes what `data` starts with
    fn prefix(&self, name: &str, data: &[u8]) -> Prefix; }
pub enum Prefix { /// content, and how much of the data it took
    Done(Vec<u8>, usize), /// the data ends too early, after this content
    Short(Vec<u8>), Bad }
pub struct NoOpaque;
impl Opaque for NoOpaque { fn enc(&self, _: &str, _: &[u8]) -> Option<Vec<u8>> { None } fn dec(&self, _: &str, _: &[u8]) -> Option<Vec<u8>> { None } fn prefix(&self, _: &str, _: &[u8]) -> Prefix { Prefix::Bad } }

/// foreign types of the harness: `u24` (three bytes, big endian), `zz32` (zig-zag with an 1-byte length head)
pub fn foreign_ety(n: &str) -> Option<ETy> { match n { "u24" => Some(ETy::Int(Sc::U32)), _ => None } }
pub fn func_ety(n: &str) -> Option<ETy> { match n { "mixf" | "opt3" => Some(ETy::Int(Sc::U64)), "odd" => Some(ETy::Bool), _ => None } }
pub fn func_arg_ety(n: &str, _i: usize) -> Option<ETy> { match n { "mixf" | "opt3" | "odd" => Some(ETy::Int(Sc::U64)), _ => None } }
pub fn func_call(n: &str, a: &[V]) -> Option<V> {
    let u = |i: usize| match a.get(i) { Some(V::U(x)) => Some(*x as u64), _ => None };
    Some(match n {
        "mixf" => V::U(mixf(u(0)?, u(1)?) as u128),
        "opt3" => V::U(opt3(u(0)?, u(1)) as u128),
        "odd" => V::Bool(u(0)? & 1 == 1),
        _ => return None,
    })
}
pub fn mixf(a: u64, b: u64) -> u64 { (a ^ (b << 1)) & 0xff }
pub fn opt3(a: u64, b: Option<u64>) -> u64 { (a & 3) + b.map(|x| x & 7).unwrap_or(5) }

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind { Stream, Whole, Frame, Zip, Opaque }
impl Kind { /// its data says where it ends
    pub fn ends(self) -> bool { self == Kind::Frame || self == Kind::Zip } }
pub fn kind(n: &str) -> Option<Kind> { Some(match n { "xorx" | "rotx" | "nibx" => Kind::Stream, "revx" => Kind::Whole, "framex" => Kind::Frame, "gzip" => Kind::Zip, "base64" => Kind::Opaque, _ => return None }) }
/// number of arguments: required, total
pub fn nargs(n: &str) -> (usize, usize) { match n { "xorx" => (1, 1), "rotx" => (0, 1), _ => (0, 0) } }
/// a streaming transform maps byte `b` at position `pos`
pub fn map_enc(n: &str, k: u8, pos: u64, b: u8) -> u8 {
    match n { "xorx" => b ^ k.wrapping_add((pos as u8).wrapping_mul(7)), "rotx" => b.wrapping_add(k), _ => b.rotate_left(4) }
}
pub fn map_dec(n: &str, k: u8, pos: u64, b: u8) -> u8 {
    match n { "xorx" => b ^ k.wrapping_add((pos as u8).wrapping_mul(7)), "rotx" => b.wrapping_sub(k), _ => b.rotate_left(4) }
}
pub fn default_key(n: &str) -> u8 { if n == "rotx" { 13 } else { 0 } }
pub fn sum8(d: &[u8]) -> u8 { d.iter().fold(0x5au8, |a, b| a.rotate_left(1) ^ b) }
pub fn enc_bytes(n: &str, k: u8, d: &[u8], op: &dyn Opaque) -> Option<Vec<u8>> {
    Some(match kind(n)? {
        Kind::Stream => d.iter().enumerate().map(|(i, &b)| map_enc(n, k, i as u64, b)).collect(),
        Kind::Whole => d.iter().rev().copied().collect(),
        Kind::Frame => { let mut o = (d.len() as u16).to_be_bytes().to_vec(); o.extend_from_slice(d); o.push(sum8(d)); o }
        Kind::Zip | Kind::Opaque => op.enc(n, d)?,
    })
}
