//! Simulated streams.
use crate::world::*;
use std::cell::RefCell;
use std::collections::VecDeque;
use std::io;
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Context, Poll, Waker};

#[derive(Debug, Clone, PartialEq)]
pub struct SimFault(pub u32);
impl std::fmt::Display for SimFault { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "injected fault {}", self.0) } }
impl std::error::Error for SimFault {}
pub const KINDS: [io::ErrorKind; 8] = [io::ErrorKind::ConnectionReset, io::ErrorKind::TimedOut, io::ErrorKind::BrokenPipe, io::ErrorKind::PermissionDenied, io::ErrorKind::Other, io::ErrorKind::InvalidData, io::ErrorKind::StorageFull, io::ErrorKind::ConnectionAborted];
pub fn fault_err(k: io::ErrorKind, code: u32) -> io::Error { io::Error::new(k, SimFault(code)) }

#[derive(Clone, Debug, PartialEq)]
pub enum Chunk { Whole, One, Max(usize), Cuts(Vec<usize>) }
#[derive(Clone, Debug)]
pub enum REnd { Eof, /// error at this point, again and again
    Err(io::ErrorKind, u32), /// error once, then the stream goes on
    Once(io::ErrorKind, u32) }
#[derive(Clone, Debug)]
pub struct RCfg { pub chunk: Chunk, pub eintr: u64, pub pend: u64, pub end: REnd, /// offset at which the end condition holds
    pub end_at: usize, pub empty_waits: bool }
impl RCfg { pub fn plain(len: usize) -> RCfg { RCfg { chunk: Chunk::Whole, eintr: 0, pend: 0, end: REnd::Eof, end_at: len, empty_waits: false } } }

pub struct PipeInner { pub buf: VecDeque<u8>, pub cap: usize, pub closed: bool, pub broken: bool, pub rw: Option<Waker>, pub ww: Option<Waker>, pub total: usize }
pub type Pipe = Rc<RefCell<PipeInner>>;
pub fn pipe(cap: usize) -> Pipe { Rc::new(RefCell::new(PipeInner { buf: VecDeque::new(), cap, closed: false, broken: false, rw: None, ww: None, total: 0 })) }

enum RSrc { Data(Vec<u8>), Pipe(Pipe) }
pub struct SimReader {
    w: W, src: RSrc, pub cfg: RCfg,
    /// bytes handed to the caller so far
    pub pos: usize,
    chunk: Vec<u8>, cpos: usize,
    /// bytes moved from the source into `chunk` so far
    fetched: usize,
    once_done: bool, pub end_hits: u64, ready_at: Option<u64>,
    pub record: Option<Vec<u8>>,
}
// single-threaded simulation: the codecs only ask for the marker traits
unsafe impl Send for SimReader {}
unsafe impl Sync for SimReader {}
impl SimReader {
    pub fn new(w: &W, data: &[u8], cfg: RCfg) -> SimReader { SimReader { w: w.clone(), src: RSrc::Data(data.to_vec()), cfg, pos: 0, chunk: vec![], cpos: 0, fetched: 0, once_done: false, end_hits: 0, ready_at: None, record: None } }
    pub fn plain(w: &W, data: &[u8]) -> SimReader { SimReader::new(w, data, RCfg::plain(data.len())) }
    pub fn piped(w: &W, p: &Pipe, cfg: RCfg) -> SimReader { SimReader { w: w.clone(), src: RSrc::Pipe(p.clone()), cfg, pos: 0, chunk: vec![], cpos: 0, fetched: 0, once_done: false, end_hits: 0, ready_at: None, record: None } }
    /// the most bytes the source ever made visible to the codec
    pub fn shown(&self) -> usize { self.fetched }
    fn chunk_len(&mut self, avail: usize) -> usize {
        match &self.cfg.chunk {
            Chunk::Whole => avail,
            Chunk::One => 1,
            Chunk::Max(n) => 1 + self.w.us((*n).min(avail)),
            Chunk::Cuts(c) => c.iter().find(|&&x| x > self.fetched).map(|x| x - self.fetched).unwrap_or(avail).min(avail),
        }
    }
    /// loads the next chunk; Ok(false) = end of stream
    fn fetch(&mut self, cx: Option<&mut Context<'_>>) -> Poll<io::Result<()>> {
        debug_assert!(self.cpos >= self.chunk.len());
        self.w.call();
        let w = self.w.clone();
        match cx {
            None => if w.chance(self.cfg.eintr, 100) { w.fault("read_interrupted"); return Poll::Ready(Err(io::ErrorKind::Interrupted.into())); },
            Some(cx) => {
                if let Some(r) = self.ready_at {
                    if w.now.get() < r { w.fault("read_poll_before_ready"); w.wake_at(r, cx.waker()); return Poll::Pending; }
                    self.ready_at = None;
                } else if w.chance(self.cfg.pend, 100) {
                    let r = w.now.get() + 1 + w.below(50);
                    w.fault("read_not_ready");
                    self.ready_at = Some(r);
                    w.wake_at(r, cx.waker());
                    if w.chance(1, 8) { w.fault("spurious_wakeup"); w.wake_at(w.now.get() + w.below(r - w.now.get()), cx.waker()); }
                    return Poll::Pending;
                }
                if let RSrc::Pipe(p) = &self.src {
                    let mut p = p.borrow_mut();
                    if p.buf.is_empty() && !p.closed && self.fetched < self.cfg.end_at {
                        p.rw = Some(cx.waker().clone());
                        w.fault("read_waits_for_peer");
                        return Poll::Pending;
                    }
                }
            }
        }
        let left = self.cfg.end_at - self.fetched;
        let avail = match &self.src { RSrc::Data(d) => d.len() - self.fetched, RSrc::Pipe(p) => p.borrow().buf.len() }.min(left);
        if avail == 0 {
            let at_cut = left == 0;
            match self.cfg.end.clone() {
                REnd::Err(k, c) if at_cut => { self.end_hits += 1; self.w.fault("read_error"); return Poll::Ready(Err(fault_err(k, c))); }
                REnd::Once(k, c) if at_cut => {
                    if self.once_done { self.chunk.clear(); self.cpos = 0; return Poll::Ready(Ok(())); }
                    self.end_hits += 1;
                    self.w.fault("read_error_once");
                    self.once_done = true;
                    // afterwards the stream goes on
                    if let RSrc::Data(d) = &self.src { self.cfg.end_at = d.len(); }
                    self.cfg.end = REnd::Eof;
                    return Poll::Ready(Err(fault_err(k, c)));
                }
                _ => { self.end_hits += 1; if at_cut { self.w.fault("read_eof"); } self.chunk.clear(); self.cpos = 0; return Poll::Ready(Ok(())); }
            }
        }
        let n = self.chunk_len(avail).max(1).min(avail);
        self.chunk.clear();
        self.cpos = 0;
        match &self.src {
            RSrc::Data(d) => self.chunk.extend_from_slice(&d[self.fetched..self.fetched + n]),
            RSrc::Pipe(p) => {
                let mut p = p.borrow_mut();
                self.chunk.extend(p.buf.drain(..n));
                if let Some(x) = p.ww.take() { let d = w.below(6); w.wake_at(w.now.get() + d, &x); }
            }
        }
        self.fetched += n;
        Poll::Ready(Ok(()))
    }
    fn advance(&mut self, n: usize) {
        assert!(n <= self.chunk.len() - self.cpos, "consume beyond the offered buffer");
        if let Some(r) = &mut self.record { r.extend_from_slice(&self.chunk[self.cpos..self.cpos + n]); }
        self.cpos += n;
        self.pos += n;
        self.w.note(0x10000 + n as u64);
    }
}
impl io::Read for SimReader {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        if b.is_empty() { self.w.call(); return Ok(0); }
        if self.cpos >= self.chunk.len() { match self.fetch(None) { Poll::Ready(r) => r?, Poll::Pending => unreachable!() } }
        else { self.w.call(); }
        let n = b.len().min(self.chunk.len() - self.cpos);
        b[..n].copy_from_slice(&self.chunk[self.cpos..self.cpos + n]);
        self.advance(n);
        Ok(n)
    }
}
impl io::BufRead for SimReader {
    fn fill_buf(&mut self) -> io::Result<&[u8]> {
        if self.cpos >= self.chunk.len() { match self.fetch(None) { Poll::Ready(r) => r?, Poll::Pending => unreachable!() } }
        else { self.w.call(); }
        Ok(&self.chunk[self.cpos..])
    }
    fn consume(&mut self, n: usize) { self.advance(n) }
}
impl tokio::io::AsyncRead for SimReader {
    fn poll_read(mut self: Pin<&mut Self>, cx: &mut Context<'_>, b: &mut tokio::io::ReadBuf<'_>) -> Poll<io::Result<()>> {
        if b.remaining() == 0 { self.w.call(); return Poll::Ready(Ok(())); }
        if self.cpos >= self.chunk.len() { match self.fetch(Some(cx)) { Poll::Ready(r) => r?, Poll::Pending => return Poll::Pending } } else { self.w.call(); }
        let n = b.remaining().min(self.chunk.len() - self.cpos);
        b.put_slice(&self.chunk[self.cpos..self.cpos + n]);
        self.advance(n);
        Poll::Ready(Ok(()))
    }
}
impl tokio::io::AsyncBufRead for SimReader {
    fn poll_fill_buf(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<&[u8]>> {
        let me = self.get_mut();
        if me.cpos >= me.chunk.len() { match me.fetch(Some(cx)) { Poll::Ready(r) => r?, Poll::Pending => return Poll::Pending } } else { me.w.call(); }
        Poll::Ready(Ok(&me.chunk[me.cpos..]))
    }
    fn consume(mut self: Pin<&mut Self>, n: usize) { self.advance(n) }
}
impl Drop for SimReader { fn drop(&mut self) { if let RSrc::Pipe(p) = &self.src { let mut p = p.borrow_mut(); p.broken = true; if let Some(x) = p.ww.take() { self.w.wake_at(self.w.now.get(), &x); } } } }

#[derive(Clone, Debug, PartialEq)]
pub enum WEnd { None, Err(io::ErrorKind, u32), Once(io::ErrorKind, u32), Zero }
#[derive(Clone, Debug)]
pub struct WCfg { /// most bytes taken by one call; 0 = all
    pub max: usize, pub eintr: u64, pub pend: u64, pub end: WEnd, pub end_at: usize, /// error on the n-th flush that reaches the sink
    pub flush_fail: Option<(u64, io::ErrorKind, u32)> }
impl WCfg { pub fn plain() -> WCfg { WCfg { max: 0, eintr: 0, pend: 0, end: WEnd::None, end_at: usize::MAX, flush_fail: None } } }
enum WDst { Buf, Pipe(Pipe) }
pub struct SimWriter {
    w: W, dst: WDst, pub cfg: WCfg, pub out: Vec<u8>, pub flushes: u64, pub fault_at: Option<usize>, pub flush_faulted: bool, ready_at: Option<u64>, pub calls_after_fault: u64,
}
unsafe impl Send for SimWriter {}
unsafe impl Sync for SimWriter {}
impl SimWriter {
    pub fn new(w: &W, cfg: WCfg) -> SimWriter { SimWriter { w: w.clone(), dst: WDst::Buf, cfg, out: vec![], flushes: 0, fault_at: None, flush_faulted: false, ready_at: None, calls_after_fault: 0 } }
    pub fn plain(w: &W) -> SimWriter { SimWriter::new(w, WCfg::plain()) }
    pub fn piped(w: &W, p: &Pipe, cfg: WCfg) -> SimWriter { let mut s = SimWriter::new(w, cfg); s.dst = WDst::Pipe(p.clone()); s }
    pub fn close(&mut self) { if let WDst::Pipe(p) = &self.dst { let mut p = p.borrow_mut(); p.closed = true; if let Some(x) = p.rw.take() { self.w.wake_at(self.w.now.get(), &x); } } }
    fn not_ready(&mut self, cx: &mut Context<'_>) -> bool {
        let w = self.w.clone();
        if let Some(r) = self.ready_at {
            if w.now.get() < r { w.fault("write_poll_before_ready"); w.wake_at(r, cx.waker()); return true; }
            self.ready_at = None;
        } else if w.chance(self.cfg.pend, 100) {
            let r = w.now.get() + 1 + w.below(50);
            w.fault("write_not_ready");
            self.ready_at = Some(r);
            w.wake_at(r, cx.waker());
            if w.chance(1, 8) { w.fault("spurious_wakeup"); w.wake_at(w.now.get() + w.below(r - w.now.get()), cx.waker()); }
            return true;
        }
        false
    }
    fn accept(&mut self, b: &[u8], cx: Option<&mut Context<'_>>) -> Poll<io::Result<usize>> {
        self.w.call();
        if self.fault_at.is_some() { self.calls_after_fault += 1; }
        let w = self.w.clone();
        if b.is_empty() { return Poll::Ready(Ok(0)); }
        match cx {
            None => if w.chance(self.cfg.eintr, 100) { w.fault("write_interrupted"); return Poll::Ready(Err(io::ErrorKind::Interrupted.into())); },
            Some(cx) => {
                if self.not_ready(cx) { return Poll::Pending; }
                if let WDst::Pipe(p) = &self.dst {
                    let mut p = p.borrow_mut();
                    if p.broken { drop(p); w.fault("peer_gone"); self.fault_at.get_or_insert(self.out.len()); return Poll::Ready(Err(fault_err(io::ErrorKind::BrokenPipe, 77))); }
                    if p.buf.len() >= p.cap && self.out.len() < self.cfg.end_at { p.ww = Some(cx.waker().clone()); w.fault("write_back_pressure"); return Poll::Pending; }
                }
            }
        }
        let room = self.cfg.end_at.saturating_sub(self.out.len());
        if room == 0 {
            match self.cfg.end {
                WEnd::None => (),
                WEnd::Err(k, c) => { w.fault("write_error"); self.fault_at.get_or_insert(self.out.len()); return Poll::Ready(Err(fault_err(k, c))); }
                WEnd::Zero => { w.fault("write_zero"); self.fault_at.get_or_insert(self.out.len()); return Poll::Ready(Ok(0)); }
                WEnd::Once(k, c) => { w.fault("write_error_once"); self.fault_at.get_or_insert(self.out.len()); self.cfg.end = WEnd::None; self.cfg.end_at = usize::MAX; return Poll::Ready(Err(fault_err(k, c))); }
            }
        }
        let mut n = b.len();
        if room > 0 { n = n.min(room); }
        if self.cfg.max > 0 { let m = 1 + w.us(self.cfg.max); if m < n { n = m; w.fault("short_write"); } }
        if let WDst::Pipe(p) = &self.dst {
            let mut p = p.borrow_mut();
            n = n.min(p.cap - p.buf.len());
            p.buf.extend(&b[..n]);
            p.total += n;
            if let Some(x) = p.rw.take() { let d = w.below(6); w.wake_at(w.now.get() + d, &x); }
        }
        self.out.extend_from_slice(&b[..n]);
        w.note(0x20000 + n as u64);
        Poll::Ready(Ok(n))
    }
    fn do_flush(&mut self) -> io::Result<()> {
        self.w.call();
        self.flushes += 1;
        if let Some((n, k, c)) = self.cfg.flush_fail { if self.flushes > n { self.w.fault("flush_error"); self.flush_faulted = true; self.fault_at.get_or_insert(self.out.len()); return Err(fault_err(k, c)); } }
        Ok(())
    }
}
impl io::Write for SimWriter {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> { match self.accept(b, None) { Poll::Ready(r) => r, _ => unreachable!() } }
    fn flush(&mut self) -> io::Result<()> { self.do_flush() }
}
impl tokio::io::AsyncWrite for SimWriter {
    fn poll_write(mut self: Pin<&mut Self>, cx: &mut Context<'_>, b: &[u8]) -> Poll<io::Result<usize>> { self.accept(b, Some(cx)) }
    fn poll_flush(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> { if self.not_ready(cx) { return Poll::Pending; } Poll::Ready(self.do_flush()) }
    fn poll_shutdown(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> { self.w.fault("unexpected_shutdown"); Poll::Ready(Ok(())) }
}
impl Drop for SimWriter { fn drop(&mut self) { self.close() } }
