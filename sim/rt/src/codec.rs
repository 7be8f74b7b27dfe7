use crate::io::*;
use psmodel::V;
use std::future::Future;
use std::pin::Pin;
#[derive(Clone, Debug, PartialEq)]
pub enum SimErr { /// the injected fault came back
    Fault(u32), Eof, Io(std::io::ErrorKind), Other(String) }
pub fn class(e: Box<dyn std::error::Error + Send + Sync + 'static>) -> SimErr {
    if let Some(e) = e.downcast_ref::<std::io::Error>() { return io_class(e); }
    let mut s = e.source();
    while let Some(x) = s { if let Some(e) = x.downcast_ref::<std::io::Error>() { return io_class(e); } s = x.source(); }
    SimErr::Other(e.to_string())
}
fn io_class(e: &std::io::Error) -> SimErr {
    let mut x: Option<&(dyn std::error::Error + 'static)> = e.get_ref().map(|x| x as &(dyn std::error::Error + 'static));
    while let Some(i) = x { if let Some(f) = i.downcast_ref::<SimFault>() { return SimErr::Fault(f.0); } if let Some(j) = i.downcast_ref::<std::io::Error>() { return io_class(j); } x = i.source(); }
    if e.kind() == std::io::ErrorKind::UnexpectedEof { SimErr::Eof } else { SimErr::Io(e.kind()) }
}
pub type Fut<'a, T> = Pin<Box<dyn Future<Output = T> + 'a>>;
#[derive(Clone, Copy)]
pub struct Codec {
    pub ty: &'static str,
    pub dec: fn(&mut SimReader, &[V]) -> Result<V, SimErr>,
    pub enc: fn(&mut SimWriter, &[V], &V) -> Result<(), SimErr>,
    /// None when the value cannot be expressed in the generated Rust type
    pub shape: fn(&V) -> Option<V>,
    pub dec_a: Option<for<'a> fn(&'a mut SimReader, &'a [V]) -> Fut<'a, Result<V, SimErr>>>,
    pub enc_a: Option<for<'a> fn(&'a mut SimWriter, &'a [V], &'a V) -> Fut<'a, Result<(), SimErr>>>,
}
pub struct SpecMod { pub name: &'static str, pub text: &'static str, pub codecs: &'static [Codec], pub has_async: bool }
impl SpecMod { pub fn codec(&self, ty: &str) -> Option<&Codec> { self.codecs.iter().find(|c| c.ty == ty) } }
/// conversion of a model value; failure is a harness error, not a codec error
pub fn conv<T: psmodel::val::SimVal>(v: &V) -> T { match T::from_v(v) { Some(x) => x, None => std::panic::panic_any(format!("HARNESS: value shape {}", v.show())) } }
