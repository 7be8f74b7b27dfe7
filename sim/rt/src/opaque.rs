use psmodel::xf::{Opaque, Prefix};
use std::io::{Read, Write};
pub struct Real;
impl Opaque for Real {
    fn enc(&self, n: &str, d: &[u8]) -> Option<Vec<u8>> {
        match n {
            "gzip" => { let mut e = flate2::write::GzEncoder::new(vec![], flate2::Compression::default()); e.write_all(d).ok()?; e.finish().ok() }
            "base64" => { use base64::Engine; Some(base64::STANDARD.encode(d).into_bytes()) }
            _ => None,
        }
    }
    fn dec(&self, n: &str, d: &[u8]) -> Option<Vec<u8>> {
        match n {
            "gzip" => { let mut o = vec![]; let mut r = flate2::bufread::GzDecoder::new(d); r.read_to_end(&mut o).ok()?; if !r.into_inner().is_empty() { return None; } Some(o) }
            "base64" => { use base64::Engine; base64::STANDARD.decode(d).ok() }
            _ => None,
        }
    }
    fn prefix(&self, n: &str, d: &[u8]) -> Prefix {
        if n != "gzip" { return Prefix::Bad; }
        let mut o = vec![];
        let mut r = flate2::bufread::GzDecoder::new(d);
        match r.read_to_end(&mut o) { Ok(_) => Prefix::Done(o, d.len() - r.into_inner().len()), Err(e) if e.kind() == std::io::ErrorKind::UnexpectedEof => Prefix::Short(o), Err(_) => Prefix::Bad }
    }
}
