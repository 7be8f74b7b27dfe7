//! Run-time side of the harness's transforms and foreign types. Readers hand out exactly what they can decode and
//! never take more from below than their format needs; writers report short writes and errors from below unchanged.
use psmodel::xf;
use std::io::{self, BufRead, Read, Write};
use std::pin::Pin;
use std::task::{Context, Poll};
use tokio::io::{AsyncBufRead, AsyncRead, AsyncWrite, ReadBuf};

macro_rules! ready { ($e:expr) => { match $e { Poll::Ready(x) => x, Poll::Pending => return Poll::Pending } } }

pub struct MapDec<R> { r: R, name: &'static str, key: u8, pos: u64, buf: Vec<u8> }
impl<R> MapDec<R> { pub fn new(r: R, name: &'static str, key: u8) -> Self { MapDec { r, name, key, pos: 0, buf: vec![] } } fn map(&mut self, b: &mut [u8]) { for x in b { *x = xf::map_dec(self.name, self.key, self.pos, *x); self.pos += 1; } } }
impl<R: Read> Read for MapDec<R> { fn read(&mut self, b: &mut [u8]) -> io::Result<usize> { let n = self.r.read(b)?; self.map(&mut b[..n]); Ok(n) } }
impl<R: BufRead> BufRead for MapDec<R> {
    fn fill_buf(&mut self) -> io::Result<&[u8]> { self.buf.clear(); self.buf.extend_from_slice(self.r.fill_buf()?); for (i, x) in self.buf.iter_mut().enumerate() { *x = xf::map_dec(self.name, self.key, self.pos + i as u64, *x); } Ok(&self.buf) }
    fn consume(&mut self, n: usize) { self.r.consume(n); self.pos += n as u64; }
}
pub struct AMapDec<R> { r: R, name: &'static str, key: u8, pos: u64, buf: Vec<u8> }
impl<R> AMapDec<R> { pub fn new(r: R, name: &'static str, key: u8) -> Self { AMapDec { r, name, key, pos: 0, buf: vec![] } } }
impl<R: AsyncRead + Unpin> AsyncRead for AMapDec<R> {
    fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, b: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
        let me = self.get_mut();
        let before = b.filled().len();
        ready!(Pin::new(&mut me.r).poll_read(cx, b))?;
        for x in &mut b.filled_mut()[before..] { *x = xf::map_dec(me.name, me.key, me.pos, *x); me.pos += 1; }
        Poll::Ready(Ok(()))
    }
}
impl<R: AsyncBufRead + Unpin> AsyncBufRead for AMapDec<R> {
    fn poll_fill_buf(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<&[u8]>> {
        let me = self.get_mut();
        let d = ready!(Pin::new(&mut me.r).poll_fill_buf(cx))?;
        me.buf.clear();
        me.buf.extend_from_slice(d);
        for (i, x) in me.buf.iter_mut().enumerate() { *x = xf::map_dec(me.name, me.key, me.pos + i as u64, *x); }
        Poll::Ready(Ok(&me.buf))
    }
    fn consume(self: Pin<&mut Self>, n: usize) { let me = self.get_mut(); Pin::new(&mut me.r).consume(n); me.pos += n as u64; }
}
/// whole-input and framed transforms: the input is collected first
struct Collect { name: &'static str, raw: Vec<u8>, done: bool, out: Vec<u8>, pos: usize }
impl Collect {
    fn new(name: &'static str) -> Collect { Collect { name, raw: vec![], done: false, out: vec![], pos: 0 } }
    /// bytes still needed from below (None: until end of stream)
    fn need(&self) -> Option<usize> { if self.name == "revx" { None } else if self.raw.len() < 2 { Some(2 - self.raw.len()) } else { Some(2 + u16::from_be_bytes([self.raw[0], self.raw[1]]) as usize + 1 - self.raw.len()) } }
    fn finish(&mut self) -> io::Result<()> {
        if self.name == "revx" { self.out = std::mem::take(&mut self.raw); self.out.reverse(); }
        else {
            let n = self.raw.len() - 1;
            if xf::sum8(&self.raw[2..n]) != self.raw[n] { return Err(io::Error::new(io::ErrorKind::InvalidData, "checksum")); }
            self.out = self.raw[2..n].to_vec();
        }
        self.done = true;
        Ok(())
    }
    /// one read from below reported `got` bytes; Ok(true) when complete
    fn step(&mut self, got: &[u8]) -> io::Result<bool> {
        if got.is_empty() { if self.need().is_none() { self.finish()?; return Ok(true); } return Err(io::ErrorKind::UnexpectedEof.into()); }
        self.raw.extend_from_slice(got);
        if self.raw.len() >= 2 && self.need() == Some(0) { self.finish()?; return Ok(true); }
        Ok(false)
    }
    fn want(&self) -> usize { self.need().unwrap_or(512).min(512) }
    fn give(&mut self, b: &mut [u8]) -> usize { let n = b.len().min(self.out.len() - self.pos); b[..n].copy_from_slice(&self.out[self.pos..self.pos + n]); self.pos += n; n }
}
pub struct BufDec<R> { r: R, c: Collect }
impl<R> BufDec<R> { pub fn new(r: R, name: &'static str) -> Self { BufDec { r, c: Collect::new(name) } } }
impl<R: Read> BufDec<R> { fn load(&mut self) -> io::Result<()> { let mut b = [0u8; 512]; while !self.c.done { let w = self.c.want(); match self.r.read(&mut b[..w]) { Ok(n) => { self.c.step(&b[..n])?; } Err(e) if e.kind() == io::ErrorKind::Interrupted => (), Err(e) => return Err(e) } } Ok(()) } }
impl<R: Read> Read for BufDec<R> { fn read(&mut self, b: &mut [u8]) -> io::Result<usize> { if b.is_empty() { return Ok(0); } self.load()?; Ok(self.c.give(b)) } }
impl<R: Read> BufRead for BufDec<R> { fn fill_buf(&mut self) -> io::Result<&[u8]> { self.load()?; Ok(&self.c.out[self.c.pos..]) } fn consume(&mut self, n: usize) { self.c.pos += n } }
pub struct ABufDec<R> { r: R, c: Collect }
impl<R> ABufDec<R> { pub fn new(r: R, name: &'static str) -> Self { ABufDec { r, c: Collect::new(name) } } }
impl<R: AsyncRead + Unpin> ABufDec<R> {
    fn poll_load(&mut self, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        let mut b = [0u8; 512];
        while !self.c.done { let w = self.c.want(); let mut rb = ReadBuf::new(&mut b[..w]); ready!(Pin::new(&mut self.r).poll_read(cx, &mut rb))?; let n = rb.filled().len(); self.c.step(&b[..n])?; }
        Poll::Ready(Ok(()))
    }
}
impl<R: AsyncRead + Unpin> AsyncRead for ABufDec<R> {
    fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, b: &mut ReadBuf<'_>) -> Poll<io::Result<()>> { if b.remaining() == 0 { return Poll::Ready(Ok(())); } let me = self.get_mut(); ready!(me.poll_load(cx))?; let n = b.remaining().min(me.c.out.len() - me.c.pos); b.put_slice(&me.c.out[me.c.pos..me.c.pos + n]); me.c.pos += n; Poll::Ready(Ok(())) }
}
impl<R: AsyncRead + Unpin> AsyncBufRead for ABufDec<R> {
    fn poll_fill_buf(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<&[u8]>> { let me = self.get_mut(); ready!(me.poll_load(cx))?; Poll::Ready(Ok(&me.c.out[me.c.pos..])) }
    fn consume(self: Pin<&mut Self>, n: usize) { self.get_mut().c.pos += n }
}
pub struct MapEnc<W> { w: W, name: &'static str, key: u8, pos: u64 }
impl<W> MapEnc<W> { pub fn new(w: W, name: &'static str, key: u8) -> Self { MapEnc { w, name, key, pos: 0 } } fn map(&self, b: &[u8]) -> Vec<u8> { b.iter().take(64).enumerate().map(|(i, &x)| xf::map_enc(self.name, self.key, self.pos + i as u64, x)).collect() } }
impl<W: Write> Write for MapEnc<W> {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> { let m = self.map(b); let n = self.w.write(&m)?; self.pos += n as u64; Ok(n) }
    fn flush(&mut self) -> io::Result<()> { self.w.flush() }
}
impl<W: Write> MapEnc<W> { pub fn finish(&mut self) -> io::Result<()> { self.w.flush() } }
pub struct AMapEnc<W> { w: W, name: &'static str, key: u8, pos: u64 }
impl<W> AMapEnc<W> { pub fn new(w: W, name: &'static str, key: u8) -> Self { AMapEnc { w, name, key, pos: 0 } } }
impl<W: AsyncWrite + Unpin> AsyncWrite for AMapEnc<W> {
    fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, b: &[u8]) -> Poll<io::Result<usize>> {
        let me = self.get_mut();
        let m: Vec<u8> = b.iter().take(64).enumerate().map(|(i, &x)| xf::map_enc(me.name, me.key, me.pos + i as u64, x)).collect();
        let n = ready!(Pin::new(&mut me.w).poll_write(cx, &m))?;
        me.pos += n as u64;
        Poll::Ready(Ok(n))
    }
    fn poll_flush(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> { Pin::new(&mut self.get_mut().w).poll_flush(cx) }
    fn poll_shutdown(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> { Pin::new(&mut self.get_mut().w).poll_shutdown(cx) }
}
fn seal(name: &str, d: &[u8]) -> io::Result<Vec<u8>> {
    if name == "framex" && d.len() > 0xffff { return Err(io::Error::new(io::ErrorKind::InvalidInput, "frame too long")); }
    Ok(xf::enc_bytes(name, 0, d, &xf::NoOpaque).unwrap())
}
/// collects everything and writes the result when finished; nothing reaches the stream below before
pub struct BufEnc<W> { w: W, name: &'static str, buf: Vec<u8> }
impl<W> BufEnc<W> { pub fn new(w: W, name: &'static str) -> Self { BufEnc { w, name, buf: vec![] } } }
impl<W: Write> BufEnc<W> { pub fn finish(&mut self) -> io::Result<()> { let o = seal(self.name, &self.buf)?; self.w.write_all(&o)?; self.w.flush() } }
impl<W: Write> Write for BufEnc<W> { fn write(&mut self, b: &[u8]) -> io::Result<usize> { let n = b.len().min(100); self.buf.extend_from_slice(&b[..n]); Ok(n) } fn flush(&mut self) -> io::Result<()> { self.w.flush() } }
pub struct ABufEnc<W> { w: W, name: &'static str, buf: Vec<u8> }
impl<W> ABufEnc<W> { pub fn new(w: W, name: &'static str) -> Self { ABufEnc { w, name, buf: vec![] } } }
impl<W: AsyncWrite + Unpin> ABufEnc<W> { pub async fn finish(&mut self) -> io::Result<()> { use tokio::io::AsyncWriteExt; let o = seal(self.name, &self.buf)?; self.w.write_all(&o).await?; self.w.flush().await } }
impl<W: AsyncWrite + Unpin> AMapEnc<W> { pub async fn finish(&mut self) -> io::Result<()> { use tokio::io::AsyncWriteExt; self.w.flush().await } }
impl<W: AsyncWrite + Unpin> AsyncWrite for ABufEnc<W> {
    fn poll_write(self: Pin<&mut Self>, _: &mut Context<'_>, b: &[u8]) -> Poll<io::Result<usize>> { let n = b.len().min(100); self.get_mut().buf.extend_from_slice(&b[..n]); Poll::Ready(Ok(n)) }
    fn poll_flush(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> { Pin::new(&mut self.get_mut().w).poll_flush(cx) }
    fn poll_shutdown(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> { Pin::new(&mut self.get_mut().w).poll_shutdown(cx) }
}
pub fn mixf(a: u64, b: u64) -> u64 { xf::mixf(a, b) }
pub fn opt3(a: u64, b: Option<u64>) -> u64 { xf::opt3(a, b) }
pub fn u24_check(x: u32) -> io::Result<[u8; 3]> { if x >> 24 != 0 { return Err(io::Error::new(io::ErrorKind::InvalidInput, "u24")); } let b = x.to_be_bytes(); Ok([b[1], b[2], b[3]]) }
