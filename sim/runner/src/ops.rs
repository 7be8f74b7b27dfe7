//! Real and model operations and the comparisons between them.
use psmodel::ast::*;
use psmodel::codec::*;
use psmodel::genspec;
use psmodel::genval::*;
use psmodel::val::V;
use psmodel::*;
use simrt::exec::*;
use simrt::*;
use std::cell::RefCell;
use std::collections::{HashMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};

pub struct Sp {
    pub m: &'static SpecMod,
    pub spec: &'static Spec,
    pub hints: Hints,
    pub types: Vec<&'static TypeDecl>,
    pub tail: HashSet<String>,
    pub opaque: bool,
    /// computed fields whose value depends on the size of compressed data
    pub fuzzy: HashSet<String>,
    pub caps: HashMap<String, u128>,
    /// types that (transitively) use transforms
    pub xf: HashSet<String>,
    /// types with computed fields
    pub calc: HashSet<String>,
    pub model: Model<'static>,
}
impl Sp {
    pub fn new(m: &'static SpecMod) -> Sp {
        let spec: &'static Spec = Box::leak(Box::new(psmodel::parse::parse(m.text).expect("registered specification parses")));
        let types: Vec<_> = spec.types().filter(|t| m.codec(&t.name).is_some()).collect();
        let mut xf = HashSet::new();
        let mut calc = HashSet::new();
        for _ in 0..8 {
            for t in spec.types() {
                let mut x = false;
                let mut c = false;
                fn go(f: &Field, x: &mut bool, c: &mut bool, xs: &HashSet<String>, cs: &HashSet<String>) {
                    if !f.xf.is_empty() { *x = true }
                    if f.calc.is_some() { *c = true }
                    match &f.body { Body::Cont(k) => for f in &k.fields { go(f, x, c, xs, cs) }, Body::Ty(t) => ty(t, x, c, xs, cs), _ => () }
                }
                fn ty(t: &Ty, x: &mut bool, c: &mut bool, xs: &HashSet<String>, cs: &HashSet<String>) { match t { Ty::Arr(t, _) => ty(t, x, c, xs, cs), Ty::Ref(n, _) => { *x |= xs.contains(n); *c |= cs.contains(n) } _ => () } }
                go(&t.field, &mut x, &mut c, &xf, &calc);
                if x { xf.insert(t.name.clone()); }
                if c { calc.insert(t.name.clone()); }
            }
        }
        let fuzzy = psmodel::opq::fuzzy(spec).unwrap_or_default();
        Sp { m, spec, caps: psmodel::opq::caps(spec, &fuzzy), hints: Hints::new(spec), tail: genspec::tail_types(spec), opaque: genspec::uses_opaque(spec), fuzzy, types, xf, calc, model: Model { spec, op: &simrt::opaque::Real } }
    }
    pub fn same(&self, a: &V, b: &V) -> bool { a == b || (!self.fuzzy.is_empty() && a.without(&self.fuzzy) == b.without(&self.fuzzy)) }
    /// a compressor may choose a size that no longer fits where the size goes
    pub fn near(&self, v: &V) -> bool {
        if self.caps.is_empty() { return false; }
        match v {
            V::Arr(a) => a.iter().any(|x| self.near(x)),
            V::Rec(r) => r.iter().any(|(n, v)| match (self.caps.get(n), if let V::Some(x) = v { x } else { v }) { (Some(c), V::U(x)) => x.saturating_add(x / 4 + 64) > *c, (Some(c), V::I(x)) => x.saturating_add(x / 4 + 64).max(0) as u128 > *c, _ => self.near(v) }),
            V::Var(_, x) | V::Some(x) | V::New(x) => self.near(x),
            _ => false,
        }
    }
}

thread_local! {
    pub static PANIC: RefCell<Option<String>> = RefCell::new(None);
    static LOG: RefCell<Option<Vec<String>>> = RefCell::new(None);
}
pub fn log_on() { LOG.with(|l| *l.borrow_mut() = Some(vec![])) }
pub fn log_take() -> Vec<String> { LOG.with(|l| l.borrow_mut().take()).unwrap_or_default() }
pub fn log(f: impl FnOnce() -> String) { LOG.with(|l| if let Some(v) = &mut *l.borrow_mut() { if v.len() < 400 { v.push(f()) } }) }
pub fn hook() {
    std::panic::set_hook(Box::new(|i| {
        simrt::alloc::off();
        let m = i.payload().downcast_ref::<String>().cloned().or(i.payload().downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or("panic".into());
        let l = i.location().map(|l| { let f = l.file(); format!("{}:{}", f.rsplit('/').next().unwrap_or(f), l.line()) }).unwrap_or_default();
        PANIC.with(|p| *p.borrow_mut() = Some(if l.starts_with("s_") || m.starts_with("HARNESS") || m.starts_with("simulated") { m } else { format!("{} at {}", m, l) }));
    }));
}
/// panics of the code under test come back as a message
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(x) => Ok(x),
        Err(_) => {
            let m = PANIC.with(|p| p.borrow_mut().take()).unwrap_or("panic".into());
            if m.starts_with("HARNESS") { eprintln!("{}", m); std::process::exit(2); }
            Err(m)
        }
    }
}
#[derive(Clone, Debug, PartialEq)]
pub enum R<T> { Ok(T), Err(SimErr), /// panic, livelock, or a task that never finished
    Bad(String) }
impl<T> R<T> { pub fn ok(&self) -> bool { matches!(self, R::Ok(_)) } pub fn err(&self) -> bool { matches!(self, R::Err(_)) } }
pub fn showv(r: &R<V>) -> String { match r { R::Ok(v) => format!("value {}", v.show()), R::Err(e) => format!("error {:?}", e), R::Bad(m) => format!("PANIC/HANG: {}", m) } }
pub fn showm(r: &Result<V, DErr>) -> String { match r { Ok(v) => format!("value {}", v.show()), Err(e) => format!("{:?}", e) } }
pub fn shb(b: &[u8]) -> String { if b.len() <= 120 { psmodel::json::hex(b) } else { format!("{}..({} bytes)", psmodel::json::hex(&b[..120]), b.len()) } }
fn flat<T>(r: Result<Result<T, SimErr>, String>) -> R<T> { match r { Ok(Ok(v)) => R::Ok(v), Ok(Err(e)) => R::Err(e), Err(m) => R::Bad(m) } }
/// every stream call of one operation beyond this many is a livelock
thread_local! {
    /// elements the model has gone through in this run: some take no bytes, so the length alone does not bound the work
    pub static WORK: std::cell::Cell<u64> = const { std::cell::Cell::new(0) };
}
fn limit(w: &W, n: usize) { w.calls.set(0); w.call_limit.set(3000 + 60 * n as u64 + 4 * WORK.get()); w.livelock.set(false); }
thread_local! { /// operations of this scenario may run as synchronous or as asynchronous code
    pub static MIX: std::cell::Cell<bool> = const { std::cell::Cell::new(false) }; }
pub fn dec(w: &W, c: &Codec, r: &mut SimReader, args: &[V], n: usize) -> R<V> {
    if MIX.get() && c.dec_a.is_some() && w.chance(1, 3) {
        let e = std::mem::take(&mut r.cfg.eintr);
        r.cfg.pend = [0, 20, 50, 80][w.us(4)];
        let x = dec_async(w, c, r, args, n);
        r.cfg.eintr = e; r.cfg.pend = 0;
        return x;
    }
    limit(w, n);
    let x = flat(guard(|| (c.dec)(r, args)));
    log(|| format!("decode_sync {} -> {} (consumed to {})", c.ty, showv(&x), r.pos));
    x
}
pub fn enc(w: &W, c: &Codec, s: &mut SimWriter, args: &[V], v: &V, n: usize) -> R<()> {
    if MIX.get() && c.enc_a.is_some() && w.chance(1, 3) {
        let e = std::mem::take(&mut s.cfg.eintr);
        s.cfg.pend = [0, 20, 50, 80][w.us(4)];
        let x = enc_async(w, c, s, args, v, n);
        s.cfg.eintr = e; s.cfg.pend = 0;
        return x;
    }
    limit(w, n + 4096);
    let x = flat(guard(|| (c.enc)(s, args, v)));
    log(|| format!("encode_sync {} -> {:?}, sink holds {}", c.ty, x, shb(&s.out)));
    x
}
pub fn dec_async(w: &W, c: &Codec, r: &mut SimReader, args: &[V], n: usize) -> R<V> {
    limit(w, 4 * n + 100);
    let f = c.dec_a.unwrap();
    let x = match guard(|| block_on(w, f(r, args), 4000 + 400 * n as u64 + 8 * WORK.get())) { Ok(Ok(Ok(v))) => R::Ok(v), Ok(Ok(Err(e))) => R::Err(e), Ok(Err(s)) => R::Bad(format!("asynchronous decode never finished: {:?}", s)), Err(m) => R::Bad(m) };
    w.events.borrow_mut().clear();
    log(|| format!("decode_async {} -> {} (consumed to {})", c.ty, showv(&x), r.pos));
    x
}
pub fn enc_async(w: &W, c: &Codec, s: &mut SimWriter, args: &[V], v: &V, n: usize) -> R<()> {
    limit(w, 4 * n + 4096);
    let f = c.enc_a.unwrap();
    let x = match guard(|| block_on(w, f(s, args, v), 40_000 + 400 * n as u64)) { Ok(Ok(Ok(v))) => R::Ok(v), Ok(Ok(Err(e))) => R::Err(e), Ok(Err(s)) => R::Bad(format!("asynchronous encode never finished: {:?}", s)), Err(m) => R::Bad(m) };
    w.events.borrow_mut().clear();
    log(|| format!("encode_async {} -> {:?}, sink holds {}", c.ty, x, shb(&s.out)));
    x
}
/// outcome and position the model prescribes for `data[from..]` followed by `end`
pub fn mdec(sp: &Sp, ty: &str, args: &[V], data: &[u8], from: usize, end: End) -> (Result<V, DErr>, usize) {
    let mut b = Base::new(data, end);
    b.pos = from;
    let all = *b.fuel.borrow();
    let r = sp.model.decode(ty, args, &mut b);
    let used = all - *b.fuel.borrow();
    WORK.set(WORK.get().max(used));
    (r, b.pos)
}
/// does the real outcome agree with the model's; `code` is the injected error's number
pub fn agree(m: &Result<V, DErr>, mpos: usize, r: &R<V>, rpos: usize, code: u32) -> Result<(), String> {
    if let R::Bad(b) = r { return Err(format!("decoder panicked or hung: {}", b)); }
    match (m, r) {
        (Err(DErr::Undecided(_)), _) => Ok(()),
        (Ok(a), R::Ok(b)) => if a != b { Err(format!("decoded to a different value: specified {} decoded {}", a.show(), b.show())) } else if mpos != rpos { Err(format!("consumed up to byte {} instead of {}", rpos, mpos)) } else { Ok(()) },
        (Ok(a), R::Err(e)) => Err(format!("rejected ({:?}) although the specification gives {}", e, a.show())),
        (Err(e), R::Ok(v)) => Err(format!("accepted as {} although the specification gives {:?}", v.show(), e)),
        (Err(DErr::Io), R::Err(e)) => if *e == SimErr::Fault(code) { Ok(()) } else { Err(format!("the stream's error came back as {:?}", e)) },
        (Err(_), R::Err(_)) => Ok(()),
        (_, R::Bad(_)) => unreachable!(),
    }
}
/// model gave up for lack of work budget: the input asks for unbounded work, the real code is not run on it
pub fn heavy(m: &Result<V, DErr>) -> bool { matches!(m, Err(DErr::Undecided(s)) if s == "fuel") }

#[derive(Clone)]
pub struct Msg { pub ty: &'static TypeDecl, pub c: &'static Codec, pub args: Vec<V>, pub v: V, pub bytes: Vec<u8> }
pub fn pick_ty(w: &W, sp: &Sp, ok: impl Fn(&TypeDecl) -> bool) -> Option<&'static TypeDecl> {
    let c: Vec<_> = sp.types.iter().copied().filter(|t| ok(t)).collect();
    if c.is_empty() { return None; }
    if w.chance(1, 2) { Some(c[w.us(c.len())]) } else { c.last().copied() }
}
pub fn gen(w: &W, sp: &Sp, t: &'static TypeDecl, big: bool) -> Option<Msg> {
    let mut tape = w.t.borrow_mut();
    let huge = big && tape.chance(1, 4);
    let mut g = Gen { m: &sp.model, h: &sp.hints, t: &mut tape, budget: 0, big, huge, allow: 0, nest: 0 };
    let args = g.args(t);
    let (v, bytes) = g.value(&t.name, &args)?;
    drop(tape);
    if bytes.len() > 1000 { w.fault(if bytes.len() > 65536 { "message_beyond_64k" } else { "long_message" }) }
    let c = sp.m.codec(&t.name).unwrap();
    let m = Msg { ty: t, c, args, v, bytes };
    log(|| format!("message {}{} = {} model bytes {}", m.ty.name, if m.args.is_empty() { String::new() } else { format!("({})", m.args.iter().map(|a| a.show()).collect::<Vec<_>>().join(", ")) }, m.v.show(), shb(&m.bytes)));
    Some(m)
}
pub fn msg(w: &W, sp: &Sp, ok: impl Fn(&TypeDecl) -> bool) -> Option<Msg> {
    let big = w.chance(1, 12);
    for _ in 0..3 { let t = pick_ty(w, sp, &ok)?; if let Some(m) = gen(w, sp, t, big) { if !sp.near(&m.v) { return Some(m); } } }
    None
}
/// messages that can follow one another on a stream; only the last may extend to the end of the stream
pub fn sequence(w: &W, sp: &Sp, max: usize, ok: impl Fn(&TypeDecl) -> bool) -> Vec<Msg> {
    let n = 1 + w.us(max);
    let mut o = vec![];
    for i in 0..n { if let Some(m) = msg(w, sp, |t| ok(t) && (i + 1 == n || !sp.tail.contains(&t.name))) { o.push(m) } }
    o
}
pub fn chunk(w: &W, len: usize) -> Chunk {
    match w.weighted(&[2, 3, 3, 3]) {
        0 => Chunk::Whole,
        1 => Chunk::One,
        2 => Chunk::Max(1 + w.us(if w.chance(1, 3) { 64 } else { 4 })),
        _ => { let k = 1 + w.us(6); let mut c: Vec<usize> = (0..k).map(|_| w.us(len + 1)).collect(); c.sort(); Chunk::Cuts(c) }
    }
}
pub fn rcfg(w: &W, len: usize) -> RCfg { let c = RCfg { chunk: chunk(w, len), eintr: [0, 0, 10, 40][w.us(4)], pend: 0, end: REnd::Eof, end_at: len, empty_waits: false }; if c.chunk != Chunk::Whole { w.fault("fragmented_read") } log(|| format!("stream {:?}", c)); c }
pub fn arcfg(w: &W, len: usize) -> RCfg { let c = RCfg { chunk: chunk(w, len), eintr: 0, pend: [0, 20, 50, 80][w.us(4)], end: REnd::Eof, end_at: len, empty_waits: false }; if c.chunk != Chunk::Whole { w.fault("fragmented_read") } log(|| format!("stream {:?}", c)); c }
pub fn wcfg(w: &W) -> WCfg { let mut c = WCfg::plain(); c.max = [0, 1, 3, 17][w.us(4)]; c.eintr = [0, 0, 10, 40][w.us(4)]; log(|| format!("sink {:?}", c)); c }
pub fn awcfg(w: &W) -> WCfg { let mut c = WCfg::plain(); c.max = [0, 1, 3, 17][w.us(4)]; c.pend = [0, 20, 50, 80][w.us(4)]; log(|| format!("sink {:?}", c)); c }
pub fn kind(w: &W) -> std::io::ErrorKind { KINDS[w.us(KINDS.len())] }
/// what the network can do to bytes
pub fn mutate(w: &W, sp: &Sp, b: &mut Vec<u8>) {
    let n = 1 + w.us(3);
    for _ in 0..n {
        let p = w.us(b.len() + 1);
        match w.weighted(&[4, 3, 2, 2, 2, 2, 2, 2]) {
            0 => if p < b.len() { w.fault("bit_flip"); b[p] ^= 1 << w.us(8) },
            1 => if p < b.len() { w.fault("byte_changed"); let l = &sp.hints.lits; b[p] = match w.us(4) { 0 => 0, 1 => 0xff, 2 => l[w.us(l.len())] as u8, _ => w.us(256) as u8 } },
            2 => { w.fault("bytes_lost"); let k = w.us(4).min(b.len() - p); b.drain(p..p + k); }
            3 => { w.fault("bytes_duplicated"); let k = w.us(6).min(b.len() - p); let c = b[p..p + k].to_vec(); for (i, x) in c.into_iter().enumerate() { b.insert(p + i, x) } }
            4 => { w.fault("bytes_inserted"); for _ in 0..1 + w.us(4) { b.insert(p, w.us(256) as u8) } }
            5 => { w.fault("length_lie"); let k = [1, 2, 4, 8][w.us(4)].min(b.len() - p); let mode = w.us(3); for i in 0..k { b[p + i] = match mode { 0 => 0xff, 1 => if i == 0 { 0x7f } else { 0xff }, _ => if i + 1 == k { 0xff } else { 0 } } } }
            // a number grows beyond the next power of 2^8, 2^16, 2^32: its low bytes are those of before
            6 => if let Some(p) = (p..b.len()).chain(0..p.min(b.len())).find(|i| b[*i] == 0) { w.fault("high_byte"); b[p] = 1 + w.us(3) as u8 },
            _ => { w.fault("truncated"); b.truncate(p) }
        }
    }
    log(|| format!("mutated to {}", shb(b)));
}
/// a value like `v` that need not be expressible
pub fn mutate_value(w: &W, v: &mut V, others: &HashMap<String, Vec<V>>) {
    fn count(v: &V) -> usize { 1 + match v { V::Arr(x) => x.iter().map(count).sum(), V::Rec(x) => x.iter().map(|x| count(&x.1)).sum(), V::Var(_, x) | V::Some(x) | V::New(x) => count(x), _ => 0 } }
    fn at<'a>(v: &'a mut V, n: &mut usize) -> Option<&'a mut V> {
        if *n == 0 { return Some(v); }
        *n -= 1;
        match v {
            V::Arr(x) => { for y in x { if let Some(r) = at(y, n) { return Some(r); } } None }
            V::Rec(x) => { for y in x { if let Some(r) = at(&mut y.1, n) { return Some(r); } } None }
            V::Var(_, x) | V::Some(x) | V::New(x) => at(x, n),
            _ => None,
        }
    }
    let mut n = w.us(count(v));
    let Some(x) = at(v, &mut n) else { return };
    match x {
        V::Arr(a) => match w.us(4) { 0 => { a.pop(); } 1 => if let Some(l) = a.last().cloned() { a.push(l) }, 2 => a.clear(), _ => if let Some(l) = a.first().cloned() { for _ in 0..1 + w.us(300) { a.push(l.clone()) } } },
        V::Some(_) => *x = V::None,
        V::Str(s) => match w.us(3) { 0 => { s.pop(); } 1 => s.push('x'), _ => s.push('é') },
        V::U(u) => *u = match w.us(6) { 5 => u.wrapping_add(1 << [8, 16, 32, 40, 63][w.us(5)]), 0 => u.wrapping_add(1), 1 => u.wrapping_sub(1) & 0xff, 2 => 0, 3 => 255, _ => *u ^ 1 },
        V::I(i) => *i = match w.us(4) { 0 => 0, 1 => -1, 2 => 127, _ => *i ^ 1 },
        V::Bool(b) => *b = !*b,
        V::Var(n, _) => { let n = n.clone(); if let Some(o) = others.get("var") { let c: Vec<_> = o.iter().filter(|y| matches!(y, V::Var(m, _) if *m != n)).collect(); if !c.is_empty() { *x = c[w.us(c.len())].clone() } } }
        _ => (),
    }
}
