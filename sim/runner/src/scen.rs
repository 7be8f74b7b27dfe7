//! Scenarios: each simulates one run and judges one property.
use crate::ops::*;
use psmodel::codec::*;
use psmodel::val::V;
use simrt::exec::*;
use simrt::*;
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;

pub enum Out { /// judged; the label says which class of behaviour was reached
    Ok(&'static str), /// nothing to judge in this run
    Skip(&'static str), Viol(String) }
type Res = Result<&'static str, Out>;
fn viol<T>(m: String) -> Result<T, Out> { Err(Out::Viol(m)) }
fn skip<T>(m: &'static str) -> Result<T, Out> { Err(Out::Skip(m)) }
const CODE: u32 = 4242;

pub fn run(prop: &str, specs: &[Sp], w: &W) -> (usize, Out) {
    // specifications the property is about
    // written ones are few next to the generated ones, but the richer
    let written = specs.iter().take_while(|s| !s.m.name.starts_with("c_")).count()..specs.len() - specs.iter().rev().take_while(|s| !s.m.name.starts_with("c_")).count();
    let i = if !written.is_empty() && w.us(4) == 0 { written.start + w.us(written.len()) } else { w.us(specs.len()) };
    let sp = &specs[i];
    log(|| format!("specification {}", sp.m.name));
    let any = |_: &psmodel::ast::TypeDecl| true;
    WORK.set(0);
    MIX.set(matches!(prop, "P01" | "P02" | "P03" | "P04" | "P05" | "P06" | "P07" | "P13" | "P15" | "P18"));
    let r = match prop {
        "P01" => p01(sp, w, &any),
        "P02" => p02(sp, w, &any),
        "P03" => p03(sp, w, &any),
        "P04" => p04(sp, w, &any),
        "P05" => p05(sp, w, &any),
        "P06" => p06(sp, w, &any),
        "P07" => p07(sp, w, &any),
        "P08" => p08(sp, w),
        "P09" => p09(sp, w),
        "P10" => p10(sp, w),
        "P11" => p11(sp, w),
        "P12" => p12(sp, w),
        "P13" => {
            let x = |t: &psmodel::ast::TypeDecl| sp.xf.contains(&t.name);
            if sp.xf.is_empty() { skip("no transforms") } else { match w.us(6) { 0 => p01(sp, w, &x), 1 => p02(sp, w, &x), 2 => p04(sp, w, &x), 3 => p05(sp, w, &x), 4 => p06(sp, w, &x), _ => p07(sp, w, &x) } }
        }
        // imported declarations mean what they would mean in one file: the model knows only that one file
        "P15" => match w.us(5) { 0 => p01(sp, w, &any), 1 => p02(sp, w, &any), 2 => p07(sp, w, &any), 3 => p11(sp, w), _ => p09(sp, w) },
        "P18" => p18(sp, w),
        _ => { eprintln!("HARNESS: no scenario {}", prop); std::process::exit(2) }
    };
    (i, match r { Ok(l) => Out::Ok(l), Err(o) => o })
}
type Sel<'a> = &'a dyn Fn(&psmodel::ast::TypeDecl) -> bool;
fn total(q: &[Msg]) -> usize { q.iter().map(|m| m.bytes.len()).sum() }

/// round trip of a history of messages
fn p01(sp: &Sp, w: &W, ok: Sel) -> Res {
    let q = sequence(w, sp, 4, ok);
    if q.is_empty() { return skip("no value"); }
    let mut s = SimWriter::new(w, wcfg(w));
    let mut ends = vec![];
    for m in &q {
        match enc(w, m.c, &mut s, &m.args, &m.v, m.bytes.len()) { R::Ok(()) => (), r => return viol(format!("{}: encoding a valid value failed: {:?}", m.ty.name, r)) }
        ends.push(s.out.len());
    }
    let data = std::mem::take(&mut s.out);
    let mut r = SimReader::new(w, &data, rcfg(w, data.len()));
    for (m, &e) in q.iter().zip(&ends) {
        match dec(w, m.c, &mut r, &m.args, data.len()) {
            R::Ok(v) if sp.same(&v, &m.v) => (),
            R::Ok(v) => return viol(format!("{}: sent {} received {}", m.ty.name, m.v.show(), v.show())),
            x => return viol(format!("{}: decoding what was encoded failed: {}", m.ty.name, showv(&x))),
        }
        if r.pos != e { return viol(format!("{}: the message ends at byte {} but decoding stopped at {}", m.ty.name, e, r.pos)); }
    }
    Ok(if q.len() > 1 { "sequence" } else { "single" })
}
/// bytes are the specified ones, and the specified ones decode
fn p02(sp: &Sp, w: &W, ok: Sel) -> Res {
    let Some(m) = msg(w, sp, ok) else { return skip("no value") };
    let mut s = SimWriter::new(w, wcfg(w));
    match enc(w, m.c, &mut s, &m.args, &m.v, m.bytes.len()) { R::Ok(()) => (), r => return viol(format!("{}: encoding failed: {:?}", m.ty.name, r)) }
    if sp.opaque {
        let (r, p) = mdec(sp, &m.ty.name, &m.args, &s.out, 0, End::Eof);
        if !r.as_ref().map(|v| sp.same(v, &m.v)).unwrap_or(false) || p != s.out.len() { return viol(format!("{}: the bytes {} do not mean the value that was encoded but {}", m.ty.name, shb(&s.out), showm(&r))); }
    } else if s.out != m.bytes { return viol(format!("{}: encoded as {} instead of {}", m.ty.name, shb(&s.out), shb(&m.bytes))); }
    let mut r = SimReader::plain(w, &m.bytes);
    let x = dec(w, m.c, &mut r, &m.args, m.bytes.len());
    agree(&Ok(m.v.clone()), m.bytes.len(), &x, r.pos, 0).map_err(|e| Out::Viol(format!("{}: specified bytes: {}", m.ty.name, e)))?;
    Ok(if m.bytes.is_empty() { "empty" } else { "bytes" })
}
fn damaged(sp: &Sp, w: &W, ok: Sel, valid: u64) -> Option<(Msg, Vec<u8>)> {
    let m = msg(w, sp, ok)?;
    let mut b = m.bytes.clone();
    match w.weighted(&[valid, 4, 3, 1]) {
        0 => (),
        1 => mutate(w, sp, &mut b),
        2 => { w.fault("truncated"); b.truncate(w.us(b.len() + 1)); }
        _ => { w.fault("random_bytes"); let n = w.us(40); b = (0..n).map(|_| if w.chance(1, 2) { w.us(4) as u8 } else { w.us(256) as u8 }).collect(); }
    }
    // something follows on the stream
    if w.chance(1, 3) { for _ in 0..1 + w.us(8) { b.push(w.us(256) as u8) } }
    log(|| format!("stream content {}", shb(&b)));
    Some((m, b))
}
fn p03(sp: &Sp, w: &W, ok: Sel) -> Res {
    let Some((m, b)) = damaged(sp, w, ok, 6) else { return skip("no value") };
    let (mr, mp) = mdec(sp, &m.ty.name, &m.args, &b, 0, End::Eof);
    if heavy(&mr) { return skip("unbounded work"); }
    let mut r = SimReader::plain(w, &b);
    let first = dec(w, m.c, &mut r, &m.args, b.len());
    let fpos = r.pos;
    agree(&mr, mp, &first, fpos, 0).map_err(|e| Out::Viol(format!("{}: stream in one piece: {}", m.ty.name, e)))?;
    for _ in 0..1 + w.us(3) {
        let mut r = SimReader::new(w, &b, rcfg(w, b.len()));
        let x = dec(w, m.c, &mut r, &m.args, b.len());
        agree(&mr, mp, &x, r.pos, 0).map_err(|e| Out::Viol(format!("{}: fragmented {:?}: {}", m.ty.name, r.cfg.chunk, e)))?;
        match (&first, &x) { (R::Ok(a), R::Ok(c)) if a == c && r.pos == fpos => (), (R::Err(_), R::Err(_)) => (), _ if sp.opaque && mr.is_err() => (), _ => return viol(format!("{}: in one piece: {} up to byte {}; as {:?}: {} up to byte {}", m.ty.name, showv(&first), fpos, r.cfg.chunk, showv(&x), r.pos)) }
    }
    Ok(match &mr { Ok(_) => "accepted", Err(DErr::Eof) => "torn", _ => "rejected" })
}
/// decode a history of messages whose stream is cut at `at`
fn history(sp: &Sp, w: &W, q: &[Msg], data: &[u8], at: usize, cfg: RCfg, end: End, code: u32) -> Res {
    let mut r = SimReader::new(w, data, cfg);
    let shown = &data[..at];
    let mut mp = 0;
    for m in q {
        let (mr, p) = mdec(sp, &m.ty.name, &m.args, shown, mp, end);
        if heavy(&mr) { return skip("unbounded work"); }
        let full = mp + m.bytes.len() <= at && &shown[mp..mp + m.bytes.len()] == &m.bytes[..];
        let x = dec(w, m.c, &mut r, &m.args, data.len());
        let hits = r.end_hits;
        agree(&mr, p, &x, r.pos, code).map_err(|e| Out::Viol(format!("{} (message at byte {}, stream ends at byte {}): {}", m.ty.name, mp, at, e)))?;
        if matches!(mr, Err(DErr::Undecided(_))) {
            // a general-purpose decompressor may or may not need its last bytes, but never invents data
            if let R::Ok(v) = &x { if *v != m.v && !sp.tail.contains(&m.ty.name) { return viol(format!("{}: a torn message decoded to {} instead of {}", m.ty.name, v.show(), m.v.show())); } }
            return Ok("undecided");
        }
        if end == End::Io && mr == Err(DErr::Io) {
            if hits != 1 { return viol(format!("{}: the stream was read {} times after it had failed", m.ty.name, hits)); }
            if r.pos > at { return viol(format!("{}: {} bytes were consumed beyond the failure", m.ty.name, r.pos - at)); }
        }
        if full && mr.is_ok() && mr.as_ref().ok() != Some(&m.v) { return skip("open end"); }
        if mr.is_err() { return Ok(if mr == Err(DErr::Io) { "failed" } else if mr == Err(DErr::Eof) { "torn" } else { "rejected" }); }
        mp = p;
    }
    Ok("complete")
}
fn concat(q: &[Msg]) -> Vec<u8> { let mut d = vec![]; for m in q { d.extend_from_slice(&m.bytes) } d }
/// where to cut: the interesting places are the message boundaries and around them
fn cut(w: &W, q: &[Msg], len: usize) -> usize {
    if w.chance(1, 4) { let mut p = 0; let k = w.us(q.len() + 1); for m in &q[..k] { p += m.bytes.len() } let d = w.us(3); return (p + d).saturating_sub(1).min(len); }
    w.us(len + 1)
}
fn p04(sp: &Sp, w: &W, ok: Sel) -> Res {
    let q = sequence(w, sp, 3, ok);
    if q.is_empty() { return skip("no value"); }
    let data = concat(&q);
    if data.len() <= 48 && w.chance(1, 6) {
        // a crash at every byte
        for at in 0..=data.len() { w.fault("peer_crash"); let mut c = rcfg(w, data.len()); c.end_at = at; history(sp, w, &q, &data, at, c, End::Eof, 0)?; }
        return Ok("every byte");
    }
    let at = cut(w, &q, data.len());
    w.fault("peer_crash");
    let mut data = data;
    if !sp.opaque && at > 0 && w.chance(1, 6) {
        // a message that was to become much longer: what announces its parts has bits set which are rarely seen
        let from = q.iter().scan(0, |p, m| { let a = *p; *p += m.bytes.len(); Some(a) }).filter(|a| *a < at).last().unwrap_or(0);
        let zero: Vec<usize> = (from..at).take(24).filter(|i| data[*i] == 0).collect();
        if !zero.is_empty() { let i = zero[w.us(zero.len())]; w.fault("announced_long"); data[i] = 1 + w.us(3) as u8; log(|| format!("byte {} becomes {}", i, data[i])); }
    }
    log(|| format!("the sender dies at byte {} of {}", at, data.len()));
    let mut c = rcfg(w, data.len());
    c.end_at = at;
    history(sp, w, &q, &data, at, c, End::Eof, 0)
}
fn p05(sp: &Sp, w: &W, ok: Sel) -> Res {
    let q = sequence(w, sp, 3, ok);
    if q.is_empty() { return skip("no value"); }
    let mut data = concat(&q);
    let at = cut(w, &q, data.len());
    // more bytes after the failure, so that going on after it would show
    for _ in 0..w.us(20) { data.push(w.us(256) as u8) }
    let k = kind(w);
    let mut c = rcfg(w, data.len());
    c.end_at = at;
    c.end = if w.chance(1, 2) { REnd::Once(k, CODE) } else { REnd::Err(k, CODE) };
    log(|| format!("read error at byte {}: {:?}", at, c.end));
    history(sp, w, &q, &data, at, c, End::Io, CODE)
}
fn p06(sp: &Sp, w: &W, ok: Sel) -> Res {
    let Some(m) = msg(w, sp, ok) else { return skip("no value") };
    // for compressing transforms the reference is an undisturbed run
    let want = if sp.opaque {
        let mut s = SimWriter::plain(w);
        if !enc(w, m.c, &mut s, &m.args, &m.v, m.bytes.len()).ok() { return viol(format!("{}: encoding to a working sink failed", m.ty.name)); }
        let (r, p) = mdec(sp, &m.ty.name, &m.args, &s.out, 0, End::Eof);
        if !r.as_ref().map(|v| sp.same(v, &m.v)).unwrap_or(false) || p != s.out.len() { return viol(format!("{}: success, but the sink holds {} which means {}", m.ty.name, shb(&s.out), showm(&r))); }
        std::mem::take(&mut s.out)
    } else { m.bytes.clone() };
    let mut one = |at: usize, mode: usize, cfg: WCfg| -> Res {
        let mut cfg = cfg;
        let k = kind(w);
        cfg.end_at = at;
        match mode { 0 => cfg.end = WEnd::Err(k, CODE), 1 => cfg.end = WEnd::Once(k, CODE), 2 => cfg.end = WEnd::Zero, _ => { cfg.end_at = usize::MAX; cfg.flush_fail = Some((w.below(3), k, CODE)) } }
        log(|| format!("sink fault {:?} at byte {} flush {:?}", cfg.end, at, cfg.flush_fail));
        let mut s = SimWriter::new(w, cfg);
        let r = enc(w, m.c, &mut s, &m.args, &m.v, want.len());
        if let R::Bad(b) = &r { return viol(format!("{}: encoder panicked or hung on a failing sink: {}", m.ty.name, b)); }
        let hit = s.fault_at.is_some() || s.flush_faulted;
        if hit && r.ok() { return viol(format!("{}: success although the sink failed at byte {:?} (flush {}) of {}", m.ty.name, s.fault_at, s.flush_faulted, want.len())); }
        if !hit && !r.ok() { return viol(format!("{}: the sink took everything, but encoding failed: {:?}", m.ty.name, r)); }
        let taken = if sp.opaque { &s.out[..s.fault_at.unwrap_or(s.out.len())] } else { &s.out[..] };
        if !want.starts_with(taken) { return viol(format!("{}: the sink took {} which is no beginning of {}", m.ty.name, shb(taken), shb(&want))); }
        if r.ok() && taken.len() != want.len() { return viol(format!("{}: success with {} of {} bytes delivered", m.ty.name, taken.len(), want.len())); }
        if mode < 2 && hit { if let R::Err(e) = &r { if *e != SimErr::Fault(CODE) { return viol(format!("{}: the sink's error came back as {:?}", m.ty.name, e)); } } }
        Ok(if hit { "fault hit" } else { "fault not reached" })
    };
    if want.len() <= 40 && w.chance(1, 6) { let mode = w.us(3); for at in 0..want.len() { let c = wcfg(w); one(at, mode, c)?; } return Ok("every byte"); }
    let mode = w.weighted(&[4, 3, 3, 2]);
    let at = w.us(want.len() + 1);
    let c = wcfg(w);
    one(at, mode, c)
}
fn p07(sp: &Sp, w: &W, ok: Sel) -> Res {
    let Some((m, b)) = damaged(sp, w, ok, 1) else { return skip("no value") };
    let (mr, mp) = mdec(sp, &m.ty.name, &m.args, &b, 0, End::Eof);
    if heavy(&mr) { return skip("unbounded work"); }
    let mut r = SimReader::new(w, &b, rcfg(w, b.len()));
    let x = dec(w, m.c, &mut r, &m.args, b.len());
    agree(&mr, mp, &x, r.pos, 0).map_err(|e| Out::Viol(format!("{}: input {}: {}", m.ty.name, shb(&b), e)))?;
    Ok(match &mr { Ok(v) if *v == m.v => "same value", Ok(_) => "other value", Err(DErr::Eof) => "torn", Err(DErr::Format(_)) => "rejected", Err(_) => "undecided" })
}
pub const MEM_CONST: usize = 3 << 20;
pub const MEM_FACTOR: usize = 8 << 10;
fn p08(sp: &Sp, w: &W) -> Res {
    let Some(mut m) = msg(w, sp, |_| true) else { return skip("no value") };
    let mut b = m.bytes.clone();
    // absurd lengths: in the input, or handed in by the caller from an earlier message
    if !m.args.is_empty() && w.chance(1, 2) { w.fault("huge_argument"); let k = w.us(m.args.len()); if let V::U(_) = m.args[k] { if let psmodel::eval::ETy::Int(sc) = psmodel::eval::ety(sp.spec, &m.ty.args[k].ty) { m.args[k] = psmodel::eval::mk(sc, [sc.max_u(), sc.max_u() >> 1, 0xffff_ffff & sc.mask(), sc.max_u() - 1][w.us(4)]); } } }
    else { for _ in 0..1 + w.us(2) { let p = w.us(b.len() + 1); let k = [1, 2, 4, 8][w.us(4)].min(b.len() - p); let mode = w.us(4); w.fault("length_lie"); for i in 0..k { b[p + i] = match mode { 0 => 0xff, 1 => if i == 0 { 0x7f } else { 0xff }, 2 => if i == 0 { 0x40 } else { 0 }, _ => if i + 1 == k { 0x40 } else { 0 } } } } }
    if w.chance(1, 3) { b.truncate(w.us(b.len() + 1)); w.fault("truncated"); }
    if w.chance(1, 4) { for _ in 0..w.us(200) { b.push(w.us(256) as u8) } }
    log(|| format!("args {} stream {}", m.args.iter().map(|a| a.show()).collect::<Vec<_>>().join(","), shb(&b)));
    let (mr, mp) = mdec(sp, &m.ty.name, &m.args, &b, 0, End::Eof);
    if heavy(&mr) { return skip("unbounded work"); }
    if sp.opaque && mr.is_err() { return skip("decompressor"); }
    let mut r = SimReader::new(w, &b, rcfg(w, b.len()));
    w.calls.set(0); w.call_limit.set(400 + 60 * b.len() as u64 + 4 * WORK.get());
    let is_async = sp.m.has_async && w.chance(1, 3);
    let ((x, n), u) = simrt::alloc::measure(1 << 30, || {
        if is_async { let f = m.c.dec_a.unwrap(); let x = match guard(|| block_on(w, f(&mut r, &m.args), 4000 + 400 * b.len() as u64 + 8 * WORK.get())) { Ok(Ok(Ok(v))) => R::Ok(v), Ok(Ok(Err(e))) => R::Err(e), Ok(Err(s)) => R::Bad(format!("never finished: {:?}", s)), Err(m) => R::Bad(m) }; (x, 0) }
        else { let x = match guard(|| (m.c.dec)(&mut r, &m.args)) { Ok(Ok(v)) => R::Ok(v), Ok(Err(e)) => R::Err(e), Err(m) => R::Bad(m) }; (x, 0) }
    });
    let _: i32 = n;
    w.events.borrow_mut().clear();
    log(|| format!("{} peak {} biggest request {} refused {}", showv(&x), u.peak, u.biggest, u.refused));
    agree(&mr, mp, &x, r.pos, 0).map_err(|e| Out::Viol(format!("{}: input {}: {}", m.ty.name, shb(&b), e)))?;
    let got = r.shown();
    let bound = MEM_CONST + MEM_FACTOR * got + 1024 * WORK.get() as usize;
    if u.refused > 0 { return viol(format!("{}: asked for {} bytes of memory after {} bytes had arrived", m.ty.name, u.refused, got)); }
    if u.peak > bound { return viol(format!("{}: {} bytes of memory in use (largest request {}) after {} bytes had arrived", m.ty.name, u.peak, u.biggest, got)); }
    Ok(match &mr { Ok(_) => "accepted", Err(DErr::Eof) => "ran into the end", _ => "rejected" })
}
/// asynchronous against synchronous
fn p09(sp: &Sp, w: &W) -> Res {
    MIX.set(false);
    if !sp.m.has_async { return skip("no asynchronous code"); }
    match w.us(4) {
        0 => {
            // decoding any bytes
            let Some((m, b)) = damaged(sp, w, &|_| true, 3) else { return skip("no value") };
            let io = w.chance(1, 3);
            let at = if io { w.us(b.len() + 1) } else { b.len() };
            let (mr, mp) = mdec(sp, &m.ty.name, &m.args, &b[..at], 0, if io { End::Io } else { End::Eof });
            if heavy(&mr) { return skip("unbounded work"); }
            let end = if io { REnd::Err(kind(w), CODE) } else { REnd::Eof };
            let mut c = rcfg(w, b.len()); c.end = end.clone(); c.end_at = at;
            let mut r = SimReader::new(w, &b, c);
            let s = dec(w, m.c, &mut r, &m.args, b.len());
            let spos = r.pos;
            let mut c = arcfg(w, b.len()); c.end = end; c.end_at = at;
            let mut r = SimReader::new(w, &b, c);
            let a = dec_async(w, m.c, &mut r, &m.args, b.len());
            agree(&mr, mp, &a, r.pos, CODE).map_err(|e| Out::Viol(format!("{}: asynchronous decode of {}: {}", m.ty.name, shb(&b[..at]), e)))?;
            if s.ok() != a.ok() || (s.ok() && (s != a || spos != r.pos)) { return viol(format!("{}: synchronous {} up to {}, asynchronous {} up to {}", m.ty.name, showv(&s), spos, showv(&a), r.pos)); }
            Ok(if a.ok() { "decode accepted" } else { "decode rejected" })
        }
        1 => {
            // encoding to sinks that may fail
            let Some(m) = msg(w, sp, |_| true) else { return skip("no value") };
            let mut c = awcfg(w);
            match w.us(5) { 0 | 1 => (), 2 => { c.end = WEnd::Err(kind(w), CODE); c.end_at = w.us(m.bytes.len() + 1) } 3 => { c.end = WEnd::Zero; c.end_at = w.us(m.bytes.len() + 1) } _ => { c.flush_fail = Some((w.below(3), kind(w), CODE)) } }
            let mut s = SimWriter::new(w, c);
            let r = enc_async(w, m.c, &mut s, &m.args, &m.v, m.bytes.len());
            let hit = s.fault_at.is_some() || s.flush_faulted;
            if let R::Bad(b) = &r { return viol(format!("{}: asynchronous encode: {}", m.ty.name, b)); }
            if r.ok() == hit { return viol(format!("{}: asynchronous encode returned {:?} with sink fault at {:?}", m.ty.name, r, s.fault_at)); }
            if !m.bytes.starts_with(&s.out) || (r.ok() && s.out != m.bytes) { return viol(format!("{}: asynchronous encode sent {} instead of {}", m.ty.name, shb(&s.out), shb(&m.bytes))); }
            Ok(if hit { "encode failed sink" } else { "encode" })
        }
        2 => {
            // values that do not fit
            let Some(m) = msg(w, sp, |_| true) else { return skip("no value") };
            let mut v = m.v.clone();
            mutate_value(w, &mut v, &HashMap::new());
            if v == m.v || guard(|| (m.c.shape)(&v)).ok().flatten().is_none() { return skip("same value"); }
            if matches!(sp.model.encode(&m.ty.name, &m.args, &v), Err(NErr::Undecided(_))) { return skip("undecided"); }
            let mut s = SimWriter::plain(w);
            let a = enc(w, m.c, &mut s, &m.args, &v, 70_000);
            let mut t = SimWriter::new(w, awcfg(w));
            let b = enc_async(w, m.c, &mut t, &m.args, &v, 70_000);
            if a.ok() != b.ok() || matches!(b, R::Bad(_)) != matches!(a, R::Bad(_)) || (a.ok() && s.out != t.out) { return viol(format!("{}: value {}: synchronous {:?} with {}, asynchronous {:?} with {}", m.ty.name, v.show(), a, shb(&s.out), b, shb(&t.out))); }
            Ok("odd value")
        }
        _ => pipes(sp, w, false),
    }
}
/// several transfers at once, each over its own bounded pipe; optionally some are cancelled
fn pipes(sp: &Sp, w: &W, cancel: bool) -> Res {
    let n = 1 + w.us(4);
    struct T { q: Vec<Msg>, data: Vec<u8> }
    let mut ts = vec![];
    for _ in 0..n { let q = sequence(w, sp, 2, |_| true); if !q.is_empty() { let data = concat(&q); ts.push(T { q, data }) } }
    if ts.is_empty() { return skip("no value"); }
    let bytes: usize = ts.iter().map(|t| total(&t.q)).sum();
    #[derive(Default)]
    struct Obs { sent: Vec<u8>, enc: Vec<R<()>>, dec: Vec<R<V>>, pos: Vec<usize>, werr: bool, wdone: bool, rdone: bool }
    let obs: Vec<Rc<RefCell<Obs>>> = ts.iter().map(|_| Default::default()).collect();
    let spur = [0, 0, 5, 20][w.us(4)];
    w.calls.set(0);
    w.call_limit.set(20_000 + 2000 * (bytes as u64 + 10));
    let mut vict: Vec<Option<bool>> = vec![];
    let stop = {
        let mut ex = Exec::new(w);
        let mut ids = vec![];
        for (t, o) in ts.iter().zip(&obs) {
            let p = simrt::io::pipe([1, 2, 7, 64, 4096][w.us(5)]);
            let mut s = SimWriter::piped(w, &p, awcfg(w));
            let mut rc = arcfg(w, t.data.len());
            rc.end_at = usize::MAX;
            let mut r = SimReader::piped(w, &p, rc);
            let (q, o1, o2) = (&t.q, o.clone(), o.clone());
            // what was sent stays visible when the task is dropped
            struct Keep { s: SimWriter, o: Rc<RefCell<Obs>> }
            impl Drop for Keep { fn drop(&mut self) { self.o.borrow_mut().sent = self.s.out.clone(); self.o.borrow_mut().werr = self.s.fault_at.is_some(); } }
            let a = ex.spawn(async move {
                s.cfg.end_at = usize::MAX;
                let mut k = Keep { s, o: o1.clone() };
                for m in q { let e = m.c.enc_a.unwrap()(&mut k.s, &m.args, &m.v).await; let good = e.is_ok(); o1.borrow_mut().enc.push(match e { Ok(()) => R::Ok(()), Err(e) => R::Err(e) }); if !good { break } }
                o1.borrow_mut().wdone = true;
            });
            let b = ex.spawn(async move {
                for m in q { let d = m.c.dec_a.unwrap()(&mut r, &m.args).await; let good = d.is_ok(); let mut o = o2.borrow_mut(); o.dec.push(match d { Ok(v) => R::Ok(v), Err(e) => R::Err(e) }); o.pos.push(r.pos); if !good { break } }
                o2.borrow_mut().rdone = true;
            });
            ids.push((a, b));
        }
        for &(a, b) in &ids {
            vict.push(if cancel && w.chance(1, 2) { let wr = w.chance(1, 2); let k = w.below(if w.chance(1, 2) { 4 } else { 40 }); log(|| format!("{} is dropped at its poll {}", if wr { "encode" } else { "decode" }, k)); ex.cancel_after(if wr { a } else { b }, k); Some(wr) } else { None });
        }
        let bound = 2000 + 300 * (bytes as u64 + 4) + ex.w.io_wakes.get();
        let r = guard(|| { let s = ex.run(bound * if spur > 0 { 4 } else { 1 }, spur); (s, ex.self_wakes) });
        match r {
            Err(m) => { std::mem::forget(ex); w.events.borrow_mut().clear(); return viol(format!("a transfer panicked or hung: {}", m)); }
            Ok((s, sw)) => {
                if sw > 0 { return viol(format!("a task woke itself {} times while waiting", sw)); }
                // tasks that were marked but finished first are not cancelled
                for (k, &(a, b)) in ids.iter().enumerate() { if let Some(wr) = vict[k] { if !ex.cancelled.contains(&(if wr { a } else { b })) { vict[k] = None } } }
                s
            }
        }
    };
    w.events.borrow_mut().clear();
    if stop != Stop::Done { return viol(format!("transfers made no progress: {:?}", stop)); }
    for (k, (t, o)) in ts.iter().zip(&obs).enumerate() {
        let o = o.borrow();
        log(|| format!("transfer {}: sent {} of {} bytes, encodes {:?}, decodes {}", k, o.sent.len(), t.data.len(), o.enc, o.dec.iter().map(showv).collect::<Vec<_>>().join("; ")));
        if !t.data.starts_with(&o.sent) { return viol(format!("transfer {}: bytes sent {} are no beginning of {}", k, shb(&o.sent), shb(&t.data))); }
        if vict[k] != Some(true) {
            // the encoder ran to its end
            for e in &o.enc { match e { R::Ok(()) => (), R::Err(e) if o.werr => { let _ = e; } e => return viol(format!("transfer {}: encode {:?}", k, e)) } }
            if !o.werr && o.sent.len() != t.data.len() { return viol(format!("transfer {}: {} of {} bytes sent", k, o.sent.len(), t.data.len())); }
            if o.werr && vict[k].is_none() && o.dec.iter().all(|d| d.ok()) && o.dec.len() == t.q.len() { return viol(format!("transfer {}: the reader finished early", k)); }
        }
        if vict[k] != Some(false) {
            // the decoder saw exactly the bytes sent, then the end
            let mut p = 0;
            for (i, m) in t.q.iter().enumerate() {
                let (mr, mp) = mdec(sp, &m.ty.name, &m.args, &o.sent, p, End::Eof);
                if heavy(&mr) { return skip("unbounded work"); }
                let Some(d) = o.dec.get(i) else { return viol(format!("transfer {}: message {} was never decoded", k, i)) };
                agree(&mr, mp, d, o.pos[i], 0).map_err(|e| Out::Viol(format!("transfer {} message {}: {}", k, i, e)))?;
                if vict[k].is_none() && mr.as_ref().ok() != Some(&m.v) { return viol(format!("transfer {} message {}: received {} instead of {}", k, i, showm(&mr), m.v.show())); }
                if mr.is_err() { break }
                p = mp;
            }
        }
    }
    Ok(if vict.iter().any(|v| v.is_some()) { "cancelled" } else if ts.len() > 1 { "parallel transfers" } else { "transfer" })
}
fn p10(sp: &Sp, w: &W) -> Res {
    if !sp.m.has_async { return skip("no asynchronous code"); }
    if w.chance(1, 5) {
        // one side alone, dropped at any poll
        let Some(m) = msg(w, sp, |_| true) else { return skip("no value") };
        let k = w.below(if w.chance(1, 2) { 6 } else { 60 });
        let out = Rc::new(RefCell::new((Vec::new(), false)));
        w.calls.set(0); w.call_limit.set(100_000 + 2000 * m.bytes.len() as u64);
        let s = SimWriter::new(w, awcfg(w));
        struct Keep { s: SimWriter, o: Rc<RefCell<(Vec<u8>, bool)>> }
        impl Drop for Keep { fn drop(&mut self) { self.o.borrow_mut().0 = std::mem::take(&mut self.s.out) } }
        let mut ex = Exec::new(w);
        let (m2, o2) = (&m, out.clone());
        let t = ex.spawn(async move { let mut k = Keep { s, o: o2.clone() }; let r = m2.c.enc_a.unwrap()(&mut k.s, &m2.args, &m2.v).await; o2.borrow_mut().1 = r.is_ok(); });
        ex.cancel_after(t, k);
        let r = guard(|| ex.run(60_000 + 400 * m.bytes.len() as u64, 0));
        if r.is_err() { std::mem::forget(ex); } else { drop(ex); }
        w.events.borrow_mut().clear();
        match r { Ok(Stop::Done) => (), Ok(s) => return viol(format!("{}: asynchronous encode: {:?}", m.ty.name, s)), Err(e) => return viol(format!("{}: dropping the encode: {}", m.ty.name, e)) }
        let o = out.borrow();
        log(|| format!("dropped at poll {}: sink holds {}", k, shb(&o.0)));
        if !m.bytes.starts_with(&o.0) { return viol(format!("{}: after dropping the encode the sink holds {} which is no beginning of {}", m.ty.name, shb(&o.0), shb(&m.bytes))); }
        if o.1 && o.0 != m.bytes { return viol(format!("{}: finished with {} of {} bytes", m.ty.name, o.0.len(), m.bytes.len())); }
        return Ok("dropped encode");
    }
    pipes(sp, w, true)
}
/// whatever the caller left in computed fields, the wire carries the computed values
fn p11(sp: &Sp, w: &W) -> Res {
    MIX.set(false);
    let pick = |t: &psmodel::ast::TypeDecl| sp.calc.contains(&t.name);
    if sp.calc.is_empty() { return skip("no computed fields"); }
    let Some(m) = msg(w, sp, pick) else { return skip("no value") };
    let mut v = m.v.clone();
    let n = junk(sp, w, &m.ty.name, &mut v);
    log(|| format!("{} computed fields overwritten: {}", n, v.show()));
    let mut s = SimWriter::new(w, wcfg(w));
    let r = if sp.m.has_async && w.chance(1, 3) { s.cfg = awcfg(w); enc_async(w, m.c, &mut s, &m.args, &v, m.bytes.len()) } else { enc(w, m.c, &mut s, &m.args, &v, m.bytes.len()) };
    if !r.ok() { return viol(format!("{}: encoding failed: {:?}", m.ty.name, r)); }
    let (mr, mp) = mdec(sp, &m.ty.name, &m.args, &s.out, 0, End::Eof);
    if !mr.as_ref().map_or(false, |x| sp.same(x, &m.v)) || mp != s.out.len() { return viol(format!("{}: encoded {} (computed: {}) as {} which means {}", m.ty.name, v.show(), m.v.show(), shb(&s.out), showm(&mr))); }
    if !sp.opaque && s.out != m.bytes { return viol(format!("{}: encoded as {} instead of {}", m.ty.name, shb(&s.out), shb(&m.bytes))); }
    Ok(if n > 0 { "overwritten" } else { "as computed" })
}
/// overwrites computed fields anywhere in the value
fn junk(sp: &Sp, w: &W, tn: &str, v: &mut V) -> usize {
    use psmodel::ast::*;
    fn scal(w: &W, t: &Ty, v: &mut V) {
        match (t, v) { (_, V::Some(x)) => scal(w, t, x), (Ty::S(k), v) => { let r = match w.us(3) { 0 => 0u128, 1 => u128::MAX, _ => w.below(0) as u128 }; if !matches!(v, V::U(_) | V::I(_)) { return } *v = psmodel::eval::mk(k.sc, r) } (Ty::Bool, v) => *v = V::Bool(w.us(2) == 1), _ => () }
    }
    fn tyv(sp: &Sp, w: &W, t: &Ty, v: &mut V) -> usize {
        match (t, v) {
            (_, V::Some(x)) => tyv(sp, w, t, x),
            (Ty::Arr(t, _), V::Arr(x)) => x.iter_mut().map(|y| tyv(sp, w, t, y)).sum(),
            (Ty::Ref(n, _), v) if sp.spec.type_(n).is_some() => junk(sp, w, n, v),
            _ => 0,
        }
    }
    fn cont(sp: &Sp, w: &W, c: &Cont, v: &mut V) -> usize {
        let V::Rec(fs) = v else { return 0 };
        let mut n = 0;
        for_fields(c, &mut |f, _| if let Some((_, x)) = fs.iter_mut().find(|x| x.0 == f.name) {
            if let Body::Ty(t) = &f.body { if f.calc.is_some() { if w.chance(3, 4) { scal(w, t, x); n += 1; } } else { n += tyv(sp, w, t, x) } }
        });
        n
    }
    let Some(t) = sp.spec.type_(tn) else { return 0 };
    match (&t.field.body, v) {
        (Body::Ty(t), V::New(x)) => tyv(sp, w, t, x),
        (Body::Cont(c), V::Var(n, x)) if c.tagged => match c.fields.iter().find(|f| f.name == *n).map(|f| &f.body) { Some(Body::Cont(ic)) => cont(sp, w, ic, x), Some(Body::Ty(t)) => tyv(sp, w, t, x), _ => 0 },
        (Body::Cont(c), v) => cont(sp, w, c, v),
        _ => 0,
    }
}
/// values the specification cannot express
fn p12(sp: &Sp, w: &W) -> Res {
    let Some(m) = msg(w, sp, |_| true) else { return skip("no value") };
    let mut others: HashMap<String, Vec<V>> = HashMap::new();
    // alternatives of tagged types, generated for other tags
    if sp.types.iter().any(|t| matches!(&t.field.body, psmodel::ast::Body::Cont(c) if c.tagged)) {
        let mut vs = vec![];
        for t in &sp.types { if matches!(&t.field.body, psmodel::ast::Body::Cont(c) if c.tagged) { for _ in 0..2 { if let Some(x) = gen(w, sp, t, false) { vs.push(x.v) } } } }
        others.insert("var".into(), vs);
    }
    let mut v = m.v.clone();
    let mut args = m.args.clone();
    if !args.is_empty() && w.chance(1, 5) { let k = w.us(args.len()); if let (V::U(x), psmodel::eval::ETy::Int(sc)) = (&args[k], psmodel::eval::ety(sp.spec, &m.ty.args[k].ty)) { args[k] = psmodel::eval::mk(sc, x.wrapping_add(if w.chance(1, 4) { 1 << [8, 16, 32, 40][w.us(4)] } else { 1 + w.us(3) as u128 })); } }
    else { for _ in 0..1 + w.us(2) { mutate_value(w, &mut v, &others); } }
    if v == m.v && args == m.args { return skip("same value"); }
    if guard(|| (m.c.shape)(&v)).ok().flatten().is_none() { return skip("not expressible in the type"); }
    let want = sp.model.encode(&m.ty.name, &args, &v);
    log(|| format!("value {} args {} -> model {:?}", v.show(), args.iter().map(|a| a.show()).collect::<Vec<_>>().join(","), want.as_ref().map(|b| shb(b))));
    match &want {
        Err(NErr::Undecided(_)) => return skip("undecided"),
        Ok(b) => {
            // expressible only if it reads back as the same thing
            let (r, p) = mdec(sp, &m.ty.name, &args, b, 0, End::Eof);
            let Ok(back) = r else { return skip("ambiguous") };
            if p != b.len() { return skip("ambiguous"); }
            if sp.near(&back) { return skip("size of compressed data"); }
            if erase(sp, &m.ty.name, &back) != erase(sp, &m.ty.name, &v) { return skip("ambiguous"); }
        }
        Err(NErr::Value(_)) => (),
    }
    let mut s = SimWriter::new(w, wcfg(w));
    let a = sp.m.has_async && w.chance(1, 3);
    let r = if a { s.cfg = awcfg(w); enc_async(w, m.c, &mut s, &args, &v, 100_000) } else { enc(w, m.c, &mut s, &args, &v, 100_000) };
    match (&want, &r) {
        (_, R::Bad(b)) => viol(format!("{}: encoding {} panicked or hung: {}", m.ty.name, v.show(), b)),
        (Ok(b), R::Ok(())) => if sp.opaque || s.out == *b { Ok("fits") } else { viol(format!("{}: {} encoded as {} instead of {}", m.ty.name, v.show(), shb(&s.out), shb(b))) },
        (Ok(_), R::Err(e)) => viol(format!("{}: {} refused ({:?}) although it fits", m.ty.name, v.show(), e)),
        (Err(_), R::Ok(())) if !sp.caps.is_empty() && mdec(sp, &m.ty.name, &args, &s.out, 0, End::Eof).0.map_or(false, |v| sp.near(&v)) => skip("size of compressed data"),
        (Err(e), R::Ok(())) => viol(format!("{}: {} does not fit ({:?}) but was sent as {}", m.ty.name, v.show(), e, shb(&s.out))),
        (Err(_), R::Err(_)) => Ok("refused"),
    }
}
/// the value without its computed fields
fn erase(sp: &Sp, tn: &str, v: &V) -> V {
    use psmodel::ast::*;
    fn tyv(sp: &Sp, t: &Ty, v: &V) -> V {
        match (t, v) {
            (_, V::Some(x)) => V::Some(Box::new(tyv(sp, t, x))),
            (Ty::Arr(t, _), V::Arr(x)) => V::Arr(x.iter().map(|y| tyv(sp, t, y)).collect()),
            (Ty::Ref(n, _), v) if sp.spec.type_(n).is_some() => erase(sp, n, v),
            (_, v) => v.clone(),
        }
    }
    fn cont(sp: &Sp, c: &Cont, v: &V) -> V {
        let V::Rec(fs) = v else { return v.clone() };
        let mut o = vec![];
        for_fields(c, &mut |f, _| if let (None, Body::Ty(t), Some((n, x))) = (&f.calc, &f.body, fs.iter().find(|x| x.0 == f.name)) { o.push((n.clone(), tyv(sp, t, x))) });
        V::Rec(o)
    }
    let Some(t) = sp.spec.type_(tn) else { return v.clone() };
    match (&t.field.body, v) {
        (Body::Ty(t), V::New(x)) => V::New(Box::new(tyv(sp, t, x))),
        (Body::Cont(c), V::Var(n, x)) if c.tagged => V::Var(n.clone(), Box::new(match c.fields.iter().find(|f| f.name == *n).map(|f| &f.body) { Some(Body::Cont(ic)) => cont(sp, ic, x), Some(Body::Ty(t)) => tyv(sp, t, x), _ => (**x).clone() })),
        (Body::Cont(c), v) => cont(sp, c, v),
        _ => v.clone(),
    }
}
/// operations on separate streams do not influence each other
fn p18(sp: &Sp, w: &W) -> Res {
    struct Op { m: Msg, v: V, b: Vec<u8>, at: usize, enc: bool, eat: usize, panics: bool }
    let n = 2 + w.us(5);
    let mut ops = vec![];
    for _ in 0..n {
        let enc = w.chance(1, 2);
        let Some((m, b)) = damaged(sp, w, &|_| true, 3) else { continue };
        if !enc { let (mr, _) = mdec(sp, &m.ty.name, &m.args, &b, 0, End::Eof); if heavy(&mr) { continue } }
        let mut v = m.v.clone();
        if enc && w.chance(1, 3) { let mut x = v.clone(); mutate_value(w, &mut x, &HashMap::new()); if guard(|| (m.c.shape)(&x)).ok().flatten().is_some() && !matches!(sp.model.encode(&m.ty.name, &m.args, &x), Err(NErr::Undecided(_))) { v = x } }
        let at = if w.chance(1, 3) { w.us(b.len() + 1) } else { b.len() };
        let eat = if w.chance(1, 3) { w.us(m.bytes.len() + 1) } else { usize::MAX };
        let panics = w.chance(1, 6);
        ops.push(Op { m, v, b, at, enc, eat, panics });
    }
    if ops.len() < 2 { return skip("no value"); }
    #[derive(PartialEq, Debug, Clone)]
    enum O { E(R<()>, Vec<u8>), D(R<V>, usize) }
    // the streams themselves are undisturbed, so that the result is a function of the operation alone
    let w0 = |o: &Op| { let mut c = WCfg::plain(); if o.eat != usize::MAX { c.end = WEnd::Err(std::io::ErrorKind::BrokenPipe, CODE); c.end_at = o.eat } c };
    let r0 = |o: &Op| { let mut c = RCfg::plain(o.b.len()); c.chunk = Chunk::One; if o.at < o.b.len() { c.end = REnd::Err(std::io::ErrorKind::TimedOut, CODE); c.end_at = o.at } c };
    let one = |o: &Op, boom: bool| -> O {
        if o.enc {
            let mut s = SimWriter::new(w, w0(o));
            if boom && o.panics { w.fault("panic_in_sink"); w.calls.set(0); w.call_limit.set(1 + o.eat.min(3) as u64); let _ = guard(|| (o.m.c.enc)(&mut s, &o.m.args, &o.v)); s = SimWriter::new(w, w0(o)); }
            let r = enc(w, o.m.c, &mut s, &o.m.args, &o.v, 70_000);
            O::E(r, std::mem::take(&mut s.out))
        } else {
            let mut r = SimReader::new(w, &o.b, r0(o));
            if boom && o.panics { w.fault("panic_in_source"); w.calls.set(0); w.call_limit.set(1 + o.at.min(3) as u64); let _ = guard(|| (o.m.c.dec)(&mut r, &o.m.args)); r = SimReader::new(w, &o.b, r0(o)); }
            let x = dec(w, o.m.c, &mut r, &o.m.args, o.b.len());
            O::D(x, r.pos)
        }
    };
    // reference: what the model says, where it decides, and the first run in this history
    let first: Vec<O> = ops.iter().map(|o| one(o, false)).collect();
    for (o, f) in ops.iter().zip(&first) {
        match f {
            O::D(r, p) => { let (mr, mp) = mdec(sp, &o.m.ty.name, &o.m.args, &o.b[..o.at], 0, if o.at < o.b.len() { End::Io } else { End::Eof }); agree(&mr, mp, r, *p, CODE).map_err(|e| Out::Viol(format!("{}: {}", o.m.ty.name, e)))? }
            O::E(r, out) => if o.v == o.m.v && !sp.opaque {
                let want = &o.m.bytes[..o.eat.min(o.m.bytes.len())];
                if out != want || r.ok() != (o.eat >= o.m.bytes.len()) { return viol(format!("{}: encode {:?} with {} instead of {}", o.m.ty.name, r, shb(out), shb(want))); }
            }
        }
    }
    // again, in another order, interleaved, with panics and dropped transfers in between
    for _ in 0..2 + w.us(4) {
        if sp.m.has_async && w.chance(1, 2) {
            let obs: Rc<RefCell<Vec<(usize, O)>>> = Default::default();
            let bytes = ops.iter().map(|o| o.m.bytes.len() + o.b.len()).max().unwrap_or(0) as u64 * 6;
            w.calls.set(0); w.call_limit.set(3_000_000 + 2000 * bytes);
            let mut ex = Exec::new(w);
            let k = 2 + w.us(4);
            let mut chosen = vec![];
            for _ in 0..k {
                let i = w.us(ops.len());
                let o = &ops[i];
                let ob = obs.clone();
                let (wc, rc) = ({ let mut c = awcfg(w); let d = w0(o); c.end = d.end; c.end_at = d.end_at; c }, { let mut c = arcfg(w, o.b.len()); let d = r0(o); c.end = d.end; c.end_at = d.end_at; c });
                let mut s = SimWriter::new(w, wc);
                let mut r = SimReader::new(w, &o.b, rc);
                let t = ex.spawn(async move {
                    let res = if o.enc { let x = o.m.c.enc_a.unwrap()(&mut s, &o.m.args, &o.v).await; O::E(match x { Ok(()) => R::Ok(()), Err(e) => R::Err(e) }, std::mem::take(&mut s.out)) } else { let x = o.m.c.dec_a.unwrap()(&mut r, &o.m.args).await; O::D(match x { Ok(v) => R::Ok(v), Err(e) => R::Err(e) }, r.pos) };
                    ob.borrow_mut().push((i, res));
                });
                if w.chance(1, 4) { ex.cancel_after(t, w.below(6)); }
                chosen.push(i);
            }
            let r = guard(|| ex.run(400_000 + 2000 * bytes, 5));
            if let Err(m) = r {
                std::mem::forget(ex); w.events.borrow_mut().clear();
                // a panic that the operation also has alone is not an influence
                if chosen.iter().any(|&i| matches!(&first[i], O::E(R::Bad(_), _) | O::D(R::Bad(_), _))) { continue }
                return viol(format!("interleaved operations panicked: {}", m));
            }
            drop(ex);
            w.events.borrow_mut().clear();
            if r != Ok(Stop::Done) { return viol(format!("interleaved operations stopped: {:?}", r)); }
            for (i, res) in obs.borrow().iter() {
                let same = match (&first[*i], res) { (O::E(a, x), O::E(b, y)) => a.ok() == b.ok() && (!a.ok() || x == y), (O::D(a, p), O::D(b, q)) => a.ok() == b.ok() && (!a.ok() || (a == b && p == q)), _ => false };
                if !same && !sp.opaque { return viol(format!("{}: alone {:?}, interleaved {:?}", ops[*i].m.ty.name, first[*i], res)); }
            }
        } else {
            let i = w.us(ops.len());
            let r = one(&ops[i], true);
            if r != first[i] { return viol(format!("{}: first {:?}, later {:?}", ops[i].m.ty.name, first[i], r)); }
        }
    }
    Ok("history")
}
