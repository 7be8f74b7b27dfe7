//! The reference model: an interpreter of specifications. `encode` gives the bytes a value must have, `decode` gives
//! the outcome a byte stream must have, including which failure.
use crate::ast::*;
use crate::eval::*;
use crate::val::V;
use crate::xf::{self, Kind, Opaque, Prefix};
use std::cell::RefCell;
use std::collections::HashMap;

#[derive(Clone, PartialEq, Debug)]
pub enum DErr {
    /// the stream (or an enclosing declared length) ended too early
    Eof,
    /// the stream reported its I/O error
    Io,
    /// the bytes are not allowed by the specification
    Format(String),
    /// outside what the model decides (work limit, ambiguous look-ahead, ill-typed specification)
    Undecided(String),
}
#[derive(Clone, PartialEq, Debug)]
pub enum NErr {
    /// the value cannot be expressed by the specification
    Value(String),
    Undecided(String),
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum End { Eof, /// a transform's data was cut short
    Short, Io, Bad, Ambig }
/// A byte source: `peek(n)` shows up to n bytes and, if fewer, why the data stops.
pub trait Src { fn peek(&mut self, n: usize) -> (Vec<u8>, Option<End>); fn take(&mut self, n: usize); /// bytes taken so far
    fn at(&self) -> u64; fn budget(&self) -> &RefCell<u64>; }

pub struct Base<'a> { pub data: &'a [u8], pub pos: usize, pub end: End, pub fuel: RefCell<u64> }
impl<'a> Base<'a> { pub fn new(data: &'a [u8], end: End) -> Base<'a> { Base { data, pos: 0, end, fuel: RefCell::new(200_000) } } }
impl<'a> Src for Base<'a> {
    fn peek(&mut self, n: usize) -> (Vec<u8>, Option<End>) {
        let a = self.data.len() - self.pos;
        if a >= n { (self.data[self.pos..self.pos + n].to_vec(), None) } else { (self.data[self.pos..].to_vec(), Some(self.end)) }
    }
    fn take(&mut self, n: usize) { self.pos += n; }
    fn at(&self) -> u64 { self.pos as u64 }
    fn budget(&self) -> &RefCell<u64> { &self.fuel }
}
struct Lim<'a> { s: &'a mut dyn Src, left: u64 }
impl<'a> Src for Lim<'a> {
    fn peek(&mut self, n: usize) -> (Vec<u8>, Option<End>) {
        let k = (n as u64).min(self.left) as usize;
        if k == 0 && n > 0 { return (vec![], Some(End::Eof)); }
        let (d, e) = self.s.peek(k);
        let e = e.or(if k < n { Some(End::Eof) } else { None });
        (d, e)
    }
    fn take(&mut self, n: usize) { self.left -= n as u64; self.s.take(n) }
    fn at(&self) -> u64 { self.s.at() }
    fn budget(&self) -> &RefCell<u64> { self.s.budget() }
}
struct MapSrc<'a> { s: &'a mut dyn Src, name: &'a str, key: u8, pos: u64 }
impl<'a> Src for MapSrc<'a> {
    fn peek(&mut self, n: usize) -> (Vec<u8>, Option<End>) {
        let (d, e) = self.s.peek(n);
        (d.iter().enumerate().map(|(i, &b)| xf::map_dec(self.name, self.key, self.pos + i as u64, b)).collect(), e)
    }
    fn take(&mut self, n: usize) { self.pos += n as u64; self.s.take(n) }
    fn at(&self) -> u64 { self.pos }
    fn budget(&self) -> &RefCell<u64> { self.s.budget() }
}
/// transforms that need more than the current byte: materialised on first use
struct BufSrc<'a> { s: &'a mut dyn Src, name: &'a str, op: &'a dyn Opaque, data: Option<(Vec<u8>, End)>, pos: usize }
impl<'a> BufSrc<'a> {
    fn load(&mut self) {
        if self.data.is_some() { return; }
        self.data = Some(match xf::kind(self.name).unwrap() {
            Kind::Whole => { let (mut d, e) = drain(self.s); if e == End::Eof { d.reverse(); (d, End::Eof) } else { (vec![], e) } }
            Kind::Frame => (|| {
                let short = |e| (vec![], if e == End::Eof { End::Short } else { e });
                let h = match exact(self.s, 2) { Ok(h) => h, Err(e) => return short(e) };
                let n = u16::from_be_bytes([h[0], h[1]]) as u64;
                let d = match exact(self.s, n + 1) { Ok(d) => d, Err(e) => return short(e) };
                if xf::sum8(&d[..n as usize]) != d[n as usize] { return (vec![], End::Bad); }
                (d[..n as usize].to_vec(), End::Eof)
            })(),
            Kind::Zip => {
                let (d, e) = self.s.peek(1 << 20);
                match (self.op.prefix(self.name, &d), e) {
                    (Prefix::Done(x, n), _) => { self.s.take(n); (x, End::Eof) }
                    (Prefix::Short(x), Some(End::Eof)) => (x, End::Short),
                    _ => (vec![], End::Ambig),
                }
            }
            _ => {
                let (d, e) = drain(self.s);
                if e == End::Eof { match self.op.dec(self.name, &d) { Some(x) => (x, End::Eof), None => (vec![], End::Ambig) } } else { (vec![], End::Ambig) }
            }
        });
    }
}
impl<'a> Src for BufSrc<'a> {
    fn peek(&mut self, n: usize) -> (Vec<u8>, Option<End>) {
        if n == 0 { return (vec![], None); }
        self.load();
        let (d, e) = self.data.as_ref().unwrap();
        let a = d.len() - self.pos;
        if a >= n { (d[self.pos..self.pos + n].to_vec(), None) } else { (d[self.pos..].to_vec(), Some(*e)) }
    }
    fn take(&mut self, n: usize) { self.pos += n }
    fn at(&self) -> u64 { self.pos as u64 }
    fn budget(&self) -> &RefCell<u64> { self.s.budget() }
}
fn drain(s: &mut dyn Src) -> (Vec<u8>, End) {
    let mut o = vec![];
    loop { let (d, e) = s.peek(4096); s.take(d.len()); o.extend_from_slice(&d); if let Some(e) = e { return (o, e); } }
}
fn exact(s: &mut dyn Src, n: u64) -> Result<Vec<u8>, End> {
    let mut o = vec![];
    while (o.len() as u64) < n {
        let k = (n - o.len() as u64).min(4096) as usize;
        let (d, e) = s.peek(k);
        s.take(d.len());
        o.extend_from_slice(&d);
        if let Some(e) = e { return Err(e); }
    }
    Ok(o)
}
fn derr(e: End) -> DErr { match e { End::Eof | End::Short => DErr::Eof, End::Io => DErr::Io, End::Bad => DErr::Format("transform".into()), End::Ambig => DErr::Undecided("opaque transform".into()) } }
fn burn(s: &dyn Src, n: u64) -> Result<(), DErr> { let mut b = s.budget().borrow_mut(); if *b < n { return Err(DErr::Undecided("fuel".into())); } *b -= n; Ok(()) }
fn e2d(e: EErr) -> DErr { match e { EErr::Arith | EErr::Bounds | EErr::Missing => DErr::Format("expression".into()), EErr::Type(t) => DErr::Undecided(t), EErr::Fuel => DErr::Undecided("fuel".into()) } }
fn e2n(e: EErr) -> NErr { match e { EErr::Arith | EErr::Bounds | EErr::Missing => NErr::Value("expression".into()), EErr::Type(t) => NErr::Undecided(t), EErr::Fuel => NErr::Undecided("fuel".into()) } }

pub struct Model<'a> { pub spec: &'a Spec, pub op: &'a dyn Opaque }

/// scope shared by decoding, encoding and generation: names -> declared types, known values, calculated expressions
pub struct Scope<'m> {
    pub m: &'m Model<'m>,
    pub types: HashMap<&'m str, (ETy, bool)>,
    pub vals: RefCell<HashMap<String, V>>,
    pub calcs: HashMap<&'m str, (&'m Expr, ETy)>,
    pub conts: HashMap<&'m str, (&'m Cont, Option<&'m Expr>)>,
    depth: RefCell<u32>,
    /// contents of regions whose length was asked for: nested ones would otherwise be encoded 2^depth times
    asked: RefCell<HashMap<*const Cont, Vec<u8>>>,
}
impl<'m> Scope<'m> {
    pub fn new(m: &'m Model<'m>, t: &'m TypeDecl, args: &[V], encoding: bool) -> Scope<'m> {
        let mut s = Scope { m, types: HashMap::new(), vals: RefCell::new(HashMap::new()), calcs: HashMap::new(), conts: HashMap::new(), depth: RefCell::new(0), asked: RefCell::new(HashMap::new()) };
        for (i, a) in t.args.iter().enumerate() {
            s.types.insert(&a.name, (ety(m.spec, &a.ty), false));
            let v = match args.get(i) {
                Some(v) => Some(v.clone()),
                None => a.default.as_ref().and_then(|d| eval(d, Some(&ety(m.spec, &a.ty)), &NoEnv(m.spec)).ok()),
            };
            if let Some(v) = v { s.vals.borrow_mut().insert(a.name.clone(), v); }
        }
        if let Body::Cont(c) = &t.field.body { s.add(c, encoding, false); }
        s
    }
    fn add(&mut self, c: &'m Cont, encoding: bool, opt: bool) {
        for f in &c.fields {
            let o = opt || f.cond.is_some();
            match &f.body {
                Body::Cont(n) => { self.conts.insert(&f.name, (n, f.cond.as_ref())); if !c.tagged { self.add(n, encoding, o); } }
                Body::Ty(t) => {
                    let e = ety(self.m.spec, t);
                    self.types.insert(&f.name, (e.clone(), o));
                    if encoding { if let Some(x) = &f.calc { self.calcs.insert(&f.name, (x, e)); } }
                }
                _ => (),
            }
        }
    }
    /// makes a tagged container's alternative visible
    pub fn enter(&mut self, c: &'m Cont, encoding: bool) { self.add(c, encoding, false) }
    pub fn set(&self, n: &str, v: V) { self.vals.borrow_mut().insert(n.to_string(), v); }
}
impl<'m> Env for Scope<'m> {
    fn spec(&self) -> &Spec { self.m.spec }
    fn ty(&self, n: &str) -> Option<ETy> { self.types.get(n).map(|x| x.0.clone()) }
    fn get(&self, n: &str) -> R<V> {
        if let Some((e, t)) = self.calcs.get(n) {
            if let Some(v) = self.vals.borrow().get(n) { return Ok(v.clone()); }
            if *self.depth.borrow() > 30 { return Err(EErr::Fuel); }
            *self.depth.borrow_mut() += 1;
            let r = eval(e, Some(t), self);
            *self.depth.borrow_mut() -= 1;
            let v = r?;
            self.vals.borrow_mut().insert(n.to_string(), v.clone());
            return Ok(v);
        }
        self.vals.borrow().get(n).cloned().ok_or(EErr::Fuel)
    }
    fn blen(&self, n: &str) -> R<u64> {
        let (c, cond) = *self.conts.get(n).ok_or(EErr::Type("blen target".into()))?;
        if let Some(c) = cond { if !eval_bool(c, self)? { return Ok(0); } }
        if *self.depth.borrow() > 30 { return Err(EErr::Fuel); }
        *self.depth.borrow_mut() += 1;
        let mut o = vec![];
        let r = self.m.enc_once(self, c, &mut o);
        *self.depth.borrow_mut() -= 1;
        match r { Ok(()) => { let n = o.len() as u64; self.asked.borrow_mut().insert(c, o); Ok(n) }, Err(NErr::Value(_)) => Err(EErr::Bounds), Err(NErr::Undecided(_)) => Err(EErr::Fuel) }
    }
}
fn arg_vals(m: &Model, sc: &dyn Env, t: &TypeDecl, args: &[Expr]) -> R<Vec<V>> {
    let mut o = vec![];
    for (i, a) in args.iter().enumerate() {
        let p = t.args.get(i).ok_or(EErr::Type("args".into()))?;
        let v = eval(a, Some(&ety(m.spec, &p.ty)), sc)?;
        if v == V::None { return Err(EErr::Missing); }
        o.push(v);
    }
    Ok(o)
}
fn xf_key(sc: &dyn Env, x: &Xf) -> R<u8> {
    match x.args.first() { Some(e) => match eval(e, Some(&ETy::Int(Sc::U8)), sc)? { V::U(k) => Ok(k as u8), _ => Err(EErr::Type("key".into())) }, None => Ok(xf::default_key(&x.name)) }
}
pub fn prim_enc(s: Scal, raw: u128) -> Vec<u8> {
    let n = s.sc.size();
    let b = raw.to_be_bytes();
    let mut v = b[16 - n..].to_vec();
    if s.le { v.reverse(); }
    v
}
pub fn prim_dec(s: Scal, b: &[u8]) -> u128 {
    let mut r = 0u128;
    if s.le { for x in b.iter().rev() { r = r << 8 | *x as u128; } } else { for x in b { r = r << 8 | *x as u128; } }
    r
}
impl<'a> Model<'a> {
    // ---------------------------------------------------------------- decoding
    pub fn decode(&self, ty: &str, args: &[V], s: &mut dyn Src) -> Result<V, DErr> {
        let t = self.spec.type_(ty).ok_or(DErr::Undecided(format!("type {}", ty)))?;
        burn(s, 1)?;
        let m = Model { spec: self.spec, op: self.op };
        let mut sc = Scope::new(&m, t, args, false);
        let f = &t.field;
        match &f.body {
            Body::Ty(ty) => {
                let v = self.dec_opt(&sc, f, s, |m, sc, s| m.dec_ty(sc, ty, s))?;
                Ok(V::New(Box::new(match v { None => V::None, Some(v) => if f.cond.is_some() { V::Some(Box::new(v)) } else { v } })))
            }
            Body::Enum(e) => { let b = exact(s, e.rep.sc.size() as u64).map_err(derr)?; self.enum_from(ty, e, prim_dec(e.rep, &b)) }
            Body::Bits(e) => {
                let b = exact(s, e.rep.sc.size() as u64).map_err(derr)?;
                let r = prim_dec(e.rep, &b);
                let all = bits_values(self.spec, ty).iter().fold(0, |a, x| a | x.1);
                if r & !all != 0 { return Err(DErr::Format("undeclared bits".into())); }
                Ok(V::Bits(r))
            }
            Body::Cont(c) if c.tagged => {
                // alternatives bring their own scopes
                self.dec_xf(&sc2(&sc), &f.xf, s, &mut |m, s| m.dec_len(&sc, c, s, &mut |m, s| {
                    for alt in &c.fields {
                        let on = match &alt.cond { Some(e) => eval_bool(e, &sc).map_err(e2d)?, None => true };
                        if !on { continue; }
                        let v = match &alt.body {
                            Body::Cont(ic) => {
                                let mm = Model { spec: m.spec, op: m.op };
                                let mut isc = Scope::new(&mm, t, args, false);
                                isc.enter(ic, false);
                                m.dec_xf(&isc, &alt.xf, s, &mut |m, s| m.dec_cont(&isc, ic, s))?;
                                self.collect(&isc, ic)?
                            }
                            Body::Ty(ty) => { let mut o = None; m.dec_xf(&sc, &alt.xf, s, &mut |m, s| { o = Some(m.dec_ty(&sc, ty, s)?); Ok(()) })?; o.unwrap() }
                            _ => return Err(DErr::Undecided("alternative".into())),
                        };
                        OUT.with(|o| *o.borrow_mut() = Some(V::Var(alt.name.clone(), Box::new(v))));
                        return Ok(());
                    }
                    Err(DErr::Format("no alternative".into()))
                }))?;
                Ok(OUT.with(|o| o.borrow_mut().take()).unwrap())
            }
            Body::Cont(c) => {
                if f.cond.is_some() { return Err(DErr::Undecided("conditional top container".into())); }
                let _ = &mut sc;
                self.dec_xf(&sc, &f.xf, s, &mut |m, s| m.dec_cont(&sc, c, s))?;
                self.collect(&sc, c)
            }
            Body::Pad(_) => Err(DErr::Undecided("pad".into())),
        }
    }
    fn collect(&self, sc: &Scope, c: &Cont) -> Result<V, DErr> {
        let mut o = vec![];
        fn go(sc: &Scope, c: &Cont, o: &mut Vec<(String, V)>) {
            for f in &c.fields {
                match &f.body { Body::Cont(n) => go(sc, n, o), Body::Pad(_) => (), _ => o.push((f.name.clone(), sc.vals.borrow().get(&f.name).cloned().unwrap_or(V::None))) }
            }
        }
        go(sc, c, &mut o);
        Ok(V::Rec(o))
    }
    fn dec_opt<T>(&self, sc: &Scope, f: &Field, s: &mut dyn Src, g: impl Fn(&Model, &Scope, &mut dyn Src) -> Result<T, DErr>) -> Result<Option<T>, DErr> {
        if let Some(c) = &f.cond { if !eval_bool(c, sc).map_err(e2d)? { return Ok(None); } }
        let mut o = None;
        self.dec_xf(sc, &f.xf, s, &mut |m, s| { o = Some(g(m, sc, s)?); Ok(()) })?;
        Ok(o)
    }
    /// the last transform was applied last, so it is undone first
    fn dec_xf(&self, sc: &Scope, x: &[Xf], s: &mut dyn Src, g: &mut dyn FnMut(&Model, &mut dyn Src) -> Result<(), DErr>) -> Result<(), DErr> {
        let Some((last, rest)) = x.split_last() else { return g(self, s) };
        let on = match &last.cond { Some(c) => eval_bool(c, sc).map_err(e2d)?, None => true };
        if !on { return self.dec_xf(sc, rest, s, g); }
        let key = xf_key(sc, last).map_err(e2d)?;
        match xf::kind(&last.name).ok_or(DErr::Undecided("transform".into()))? {
            Kind::Stream => self.dec_xf(sc, rest, &mut MapSrc { s, name: &last.name, key, pos: 0 }, g),
            k => {
                let mut b = BufSrc { s, name: &last.name, op: self.op, data: None, pos: 0 };
                self.dec_xf(sc, rest, &mut b, g)?;
                // what ends by itself is read to its end
                if k.ends() { b.load(); match b.data { Some((_, End::Eof)) => (), Some((_, e)) => return Err(derr(e)), None => unreachable!() } }
                Ok(())
            }
        }
    }
    fn dec_len(&self, sc: &Scope, c: &Cont, s: &mut dyn Src, g: &mut dyn FnMut(&Model, &mut dyn Src) -> Result<(), DErr>) -> Result<(), DErr> {
        match &c.len {
            None => g(self, s),
            Some(e) => {
                let n = eval_u64(e, sc).map_err(e2d)?;
                let mut l = Lim { s, left: n };
                g(self, &mut l)?;
                // the declared region is consumed whole
                while l.left > 0 { let k = l.left.min(4096) as usize; exact(&mut l, k as u64).map_err(derr)?; }
                Ok(())
            }
        }
    }
    fn dec_cont(&self, sc: &Scope, c: &Cont, s: &mut dyn Src) -> Result<(), DErr> {
        self.dec_len(sc, c, s, &mut |m, s| {
            for f in &c.fields {
                burn(s, 1)?;
                match &f.body {
                    Body::Pad(e) => {
                        let n = eval_u64(e, sc).map_err(e2d)?;
                        let mut left = n;
                        while left > 0 { let k = left.min(4096); exact(s, k).map_err(derr)?; left -= k; }
                    }
                    Body::Cont(n) => {
                        let done = m.dec_opt(sc, f, s, |m, sc, s| m.dec_cont(sc, n, s))?.is_some();
                        if f.cond.is_some() {
                            // every field of an optional region is optional
                            for_fields(n, &mut |x, inner| {
                                let opt_already = inner || x.cond.is_some();
                                let v = sc.vals.borrow().get(&x.name).cloned();
                                let v = if !done { V::None } else { match v { Some(v) if opt_already => v, Some(v) => V::Some(Box::new(v)), None => V::None } };
                                sc.set(&x.name, v);
                            });
                        }
                    }
                    Body::Ty(t) => {
                        let v = m.dec_opt(sc, f, s, |m, sc, s| m.dec_ty(sc, t, s))?;
                        sc.set(&f.name, match v { None => V::None, Some(v) => if f.cond.is_some() { V::Some(Box::new(v)) } else { v } });
                    }
                    _ => return Err(DErr::Undecided("nested enum".into())),
                }
            }
            Ok(())
        })
    }
    fn enum_from(&self, name: &str, e: &EnumD, r: u128) -> Result<V, DErr> {
        let vs = enum_values(self.spec, name);
        if let Some((n, _)) = vs.iter().find(|x| x.1 == Some(r)) { return Ok(V::Enum(n.clone(), r)); }
        match e.items.iter().find(|x| x.1 == EItem::Default) { Some((n, _)) => Ok(V::Enum(n.clone(), r)), None => Err(DErr::Format("enum".into())) }
    }
    fn dec_ty(&self, sc: &Scope, t: &Ty, s: &mut dyn Src) -> Result<V, DErr> {
        burn(s, 1)?;
        Ok(match t {
            Ty::S(k) => { let b = exact(s, k.sc.size() as u64).map_err(derr)?; mk(k.sc, prim_dec(*k, &b)) }
            Ty::F32 => V::F32(prim_dec(Scal::be(Sc::U32), &exact(s, 4).map_err(derr)?) as u32),
            Ty::F64 => V::F64(prim_dec(Scal::be(Sc::U64), &exact(s, 8).map_err(derr)?) as u64),
            Ty::Bool => V::Bool(exact(s, 1).map_err(derr)?[0] != 0),
            Ty::Arr(t, l) => {
                let mut o = vec![];
                match &**l {
                    Len::Fixed(e) => {
                        let n = eval_u64(e, sc).map_err(e2d)?;
                        let bytes = prim_size(self.spec, t).map(|k| (k as u128) * n as u128);
                        if bytes.map(|b| b > u64::MAX as u128).unwrap_or(false) { return Err(DErr::Format("size overflow".into())); }
                        for _ in 0..n { o.push(self.dec_ty(sc, t, s)?); }
                    }
                    Len::Open => {
                        let (d, e) = drain(s);
                        if e != End::Eof { return Err(derr(e)); }
                        let mut b = Base { data: &d, pos: 0, end: End::Eof, fuel: RefCell::new(*s.budget().borrow()) };
                        while b.pos < d.len() { let p = b.pos; o.push(self.dec_ty(sc, t, &mut b)?); if b.pos == p { return Err(DErr::Format("element without any length".into())); } }
                        *s.budget().borrow_mut() = *b.fuel.borrow();
                    }
                    Len::Term(e) => {
                        let V::Arr(tv) = eval(e, None, sc).map_err(e2d)? else { return Err(DErr::Undecided("terminator".into())) };
                        let term: Vec<u8> = tv.iter().map(|x| raw(x).unwrap() as u8).collect();
                        loop {
                            let (d, e) = s.peek(term.len());
                            match e {
                                Some(End::Eof) if d.is_empty() => break,
                                Some(End::Eof) | None => (),
                                Some(e) => return Err(if d.is_empty() { derr(e) } else { DErr::Undecided("look-ahead".into()) }),
                            }
                            if d == term { s.take(term.len()); break; }
                            let p = s.at();
                            o.push(self.dec_ty(sc, t, s)?);
                            if s.at() == p { return Err(DErr::Format("element without any length".into())); }
                        }
                    }
                }
                V::Arr(o)
            }
            Ty::Ref(n, args) => match self.spec.type_(n) {
                Some(td) => { let a = arg_vals(self, sc, td, args).map_err(e2d)?; self.decode(n, &a, s)? }
                None => match &**n {
                    "utf8" => {
                        let b = match args.first() {
                            Some(e) => exact(s, eval_u64(e, sc).map_err(e2d)?).map_err(derr)?,
                            None => { let mut o = vec![]; loop { let (d, e) = s.peek(1); match e { Some(End::Eof) => break, Some(e) => return Err(derr(e)), None => () } s.take(1); if d[0] == 0 { break; } o.push(d[0]); } o }
                        };
                        V::Str(String::from_utf8(b).map_err(|_| DErr::Format("utf8".into()))?)
                    }
                    "utf16" => {
                        let n = eval_u64(args.first().ok_or(DErr::Undecided("utf16".into()))?, sc).map_err(e2d)?;
                        let n2 = n.checked_mul(2).ok_or(DErr::Format("size overflow".into()))?;
                        let b = exact(s, n2).map_err(derr)?;
                        let u: Vec<u16> = b.chunks(2).map(|c| u16::from_be_bytes([c[0], c[1]])).collect();
                        V::Str(String::from_utf16(&u).map_err(|_| DErr::Format("utf16".into()))?)
                    }
                    "u24" => V::U(prim_dec(Scal::be(Sc::U32), &exact(s, 3).map_err(derr)?)),
                    n => {
                        let sc = vint_sc(n).ok_or(DErr::Undecided(format!("type {}", n)))?;
                        let max = (sc.bits() as usize + 6) / 7;
                        let mut r = 0u128;
                        let mut i = 0;
                        loop {
                            let b = exact(s, 1).map_err(derr)?[0];
                            let part = (b & 127) as u128;
                            let sh = 7 * i as u32;
                            if part << sh >> sh != part || (part << sh) & !sc.mask() != 0 { return Err(DErr::Format("varint range".into())); }
                            r |= part << sh;
                            i += 1;
                            if b & 128 == 0 { break; }
                            if i == max { return Err(DErr::Format("varint length".into())); }
                        }
                        mk(sc, r)
                    }
                },
            },
        })
    }
    // ---------------------------------------------------------------- encoding
    pub fn encode(&self, ty: &str, args: &[V], v: &V) -> Result<Vec<u8>, NErr> { let mut o = vec![]; self.enc_ref(ty, args, v, &mut o, 0)?; Ok(o) }
    fn enc_ref(&self, ty: &str, args: &[V], v: &V, out: &mut Vec<u8>, depth: u32) -> Result<(), NErr> {
        if depth > 200 { return Err(NErr::Undecided("depth".into())); }
        let t = self.spec.type_(ty).ok_or(NErr::Undecided(format!("type {}", ty)))?;
        let m = Model { spec: self.spec, op: self.op };
        let mut sc = Scope::new(&m, t, args, true);
        let bad = || NErr::Undecided(format!("shape of {}", ty));
        let f = &t.field;
        match (&f.body, v) {
            (Body::Ty(t), V::New(x)) => {
                let v = match (&f.cond, &**x) {
                    (None, x) => x.clone(),
                    (Some(c), x) => { if !eval_bool(c, &sc).map_err(e2n)? { return Ok(()); } match x { V::Some(x) => (**x).clone(), _ => return Err(NErr::Value("missing".into())) } }
                };
                self.enc_xf(&sc, &f.xf, out, |o| self.enc_ty(&sc, t, &v, o))
            }
            (Body::Enum(e), V::Enum(n, r)) => {
                let _ = n;
                out.extend(prim_enc(e.rep, *r));
                Ok(())
            }
            (Body::Bits(e), V::Bits(r)) => { out.extend(prim_enc(e.rep, *r)); Ok(()) }
            (Body::Cont(c), V::Var(n, x)) if c.tagged => {
                let sel = c.fields.iter().find_map(|alt| match &alt.cond { None => Some(Ok(alt)), Some(e) => match eval_bool(e, &sc) { Ok(true) => Some(Ok(alt)), Ok(false) => None, Err(e) => Some(Err(e)) } });
                let alt = sel.ok_or(NErr::Value("no alternative".into()))?.map_err(e2n)?;
                if alt.name != *n { return Err(NErr::Value("wrong alternative".into())); }
                let body = |o: &mut Vec<u8>| -> Result<(), NErr> {
                    match &alt.body {
                        Body::Cont(ic) => {
                            let mm = Model { spec: self.spec, op: self.op };
                            let mut isc = Scope::new(&mm, t, args, true);
                            isc.enter(ic, true);
                            load(&isc, ic, x)?;
                            self.enc_xf(&isc, &alt.xf, o, |o| self.enc_cont(&isc, ic, o))
                        }
                        Body::Ty(ty) => self.enc_xf(&sc, &alt.xf, o, |o| self.enc_ty(&sc, ty, x, o)),
                        _ => Err(bad()),
                    }
                };
                self.enc_xf(&sc, &f.xf, out, |o| self.enc_len(&sc, c, o, body))
            }
            (Body::Cont(c), V::Rec(_)) => {
                if f.cond.is_some() { return Err(bad()); }
                load(&sc, c, v)?;
                let _ = &mut sc;
                self.enc_xf(&sc, &f.xf, out, |o| self.enc_cont(&sc, c, o))
            }
            _ => Err(bad()),
        }
    }
    fn enc_xf(&self, sc: &Scope, x: &[Xf], out: &mut Vec<u8>, g: impl FnOnce(&mut Vec<u8>) -> Result<(), NErr>) -> Result<(), NErr> {
        let mut o = vec![];
        g(&mut o)?;
        for t in x {
            let on = match &t.cond { Some(c) => eval_bool(c, sc).map_err(e2n)?, None => true };
            if !on { continue; }
            let k = xf_key(sc, t).map_err(e2n)?;
            o = xf::enc_bytes(&t.name, k, &o, self.op).ok_or(NErr::Undecided("opaque transform".into()))?;
        }
        out.extend(o);
        Ok(())
    }
    fn enc_len(&self, sc: &Scope, c: &Cont, out: &mut Vec<u8>, g: impl FnOnce(&mut Vec<u8>) -> Result<(), NErr>) -> Result<(), NErr> {
        let mut o = vec![];
        g(&mut o)?;
        if let Some(e) = &c.len { let n = eval_u64(e, sc).map_err(e2n)?; if n != o.len() as u64 { return Err(NErr::Value(format!("declared length {} content {}", n, o.len()))); } }
        out.extend(o);
        Ok(())
    }
    pub fn enc_cont(&self, sc: &Scope, c: &Cont, out: &mut Vec<u8>) -> Result<(), NErr> { self.enc_len(sc, c, out, |o| self.enc_once(sc, c, o)) }
    fn enc_once(&self, sc: &Scope, c: &Cont, out: &mut Vec<u8>) -> Result<(), NErr> {
        if let Some(x) = sc.asked.borrow().get(&(c as *const Cont)) { out.extend_from_slice(x); return Ok(()); }
        self.enc_items(sc, c, out)
    }
    pub fn enc_items(&self, sc: &Scope, c: &Cont, out: &mut Vec<u8>) -> Result<(), NErr> {
        for f in &c.fields {
            if out.len() > 1 << 20 { return Err(NErr::Undecided("size".into())); }
            if let Some(e) = &f.cond { if !eval_bool(e, sc).map_err(e2n)? { continue; } }
            match &f.body {
                Body::Pad(e) => { let n = eval_u64(e, sc).map_err(e2n)?; if n > 1 << 20 { return Err(NErr::Undecided("size".into())); } out.extend(std::iter::repeat(0).take(n as usize)); }
                Body::Cont(n) => self.enc_xf(sc, &f.xf, out, |o| self.enc_cont(sc, n, o))?,
                Body::Ty(t) => {
                    let v = sc.get(&f.name).map_err(e2n)?;
                    let v = match v { V::None => return Err(NErr::Value(format!("missing {}", f.name))), V::Some(x) => *x, v => v };
                    self.enc_xf(sc, &f.xf, out, |o| self.enc_ty(sc, t, &v, o))?
                }
                _ => return Err(NErr::Undecided("nested enum".into())),
            }
        }
        Ok(())
    }
    pub fn enc_ty(&self, sc: &Scope, t: &Ty, v: &V, out: &mut Vec<u8>) -> Result<(), NErr> {
        let bad = || NErr::Undecided(format!("shape {:?} {}", t, v.show()));
        if out.len() > 1 << 20 { return Err(NErr::Undecided("size".into())); }
        match (t, v) {
            (Ty::S(k), V::U(x)) => out.extend(prim_enc(*k, *x)),
            (Ty::S(k), V::I(x)) => out.extend(prim_enc(*k, *x as u128)),
            (Ty::F32, V::F32(x)) => out.extend(x.to_be_bytes()),
            (Ty::F64, V::F64(x)) => out.extend(x.to_be_bytes()),
            (Ty::Bool, V::Bool(b)) => out.push(*b as u8),
            (Ty::Arr(t, l), V::Arr(vs)) => {
                if let Len::Fixed(e) = &**l { let n = eval_u64(e, sc).map_err(e2n)?; if n != vs.len() as u64 { return Err(NErr::Value(format!("count {} elements {}", n, vs.len()))); } }
                for x in vs { self.enc_ty(sc, t, x, out)?; }
                if let Len::Term(e) = &**l { let V::Arr(tv) = eval(e, None, sc).map_err(e2n)? else { return Err(bad()) }; out.extend(tv.iter().map(|x| raw(x).unwrap() as u8)); }
            }
            (Ty::Ref(n, args), v) => match self.spec.type_(n) {
                Some(td) => { let a = arg_vals(self, sc, td, args).map_err(e2n)?; self.enc_ref(n, &a, v, out, *sc.depth.borrow() + 1)? }
                None => match (&**n, v) {
                    ("utf8", V::Str(s)) => match args.first() {
                        Some(e) => { let n = eval_u64(e, sc).map_err(e2n)?; if n != s.len() as u64 { return Err(NErr::Value("string length".into())); } out.extend(s.as_bytes()) }
                        None => { out.extend(s.as_bytes()); out.push(0) }
                    },
                    ("utf16", V::Str(s)) => { let n = eval_u64(args.first().ok_or_else(bad)?, sc).map_err(e2n)?; if n != s.encode_utf16().count() as u64 { return Err(NErr::Value("string length".into())); } for u in s.encode_utf16() { out.extend(u.to_be_bytes()) } }
                    ("u24", V::U(x)) => { if *x >= 1 << 24 { return Err(NErr::Value("u24".into())); } out.extend(&(*x as u32).to_be_bytes()[1..]) }
                    (n, V::I(x)) => { let s = vint_sc(n).ok_or_else(bad)?; let mut r = *x as u128 & s.mask(); while r >= 128 { out.push((r & 127) as u8 | 128); r >>= 7; } out.push(r as u8) }
                    _ => return Err(bad()),
                },
            },
            _ => return Err(bad()),
        }
        Ok(())
    }
}
thread_local! { static OUT: RefCell<Option<V>> = RefCell::new(None); }
fn sc2<'x, 'm>(s: &'x Scope<'m>) -> &'x Scope<'m> { s }
/// visits the value fields of a container; the flag says whether an optional region lies in between
pub fn for_fields<'x>(c: &'x Cont, g: &mut dyn FnMut(&'x Field, bool)) {
    fn go<'x>(c: &'x Cont, opt: bool, g: &mut dyn FnMut(&'x Field, bool)) {
        for f in &c.fields { match &f.body { Body::Cont(n) => go(n, opt || f.cond.is_some(), g), Body::Pad(_) => (), _ => g(f, opt) } }
    }
    go(c, false, g)
}
fn load(sc: &Scope, c: &Cont, v: &V) -> Result<(), NErr> {
    let V::Rec(fs) = v else { return Err(NErr::Undecided("shape".into())) };
    let mut names = vec![];
    for_fields(c, &mut |f, _| names.push(f.name.as_str()));
    for n in names {
        if sc.calcs.contains_key(n) { continue; }
        let (_, v) = fs.iter().find(|x| x.0 == n).ok_or(NErr::Undecided(format!("no field {}", n)))?;
        sc.set(n, v.clone());
    }
    Ok(())
}
/// encoded size of types whose size does not depend on the value
pub fn prim_size(spec: &Spec, t: &Ty) -> Option<usize> {
    match t {
        Ty::S(s) => Some(s.sc.size()), Ty::F32 => Some(4), Ty::F64 => Some(8), Ty::Bool => Some(1),
        Ty::Ref(n, _) => match &spec.type_(n)?.field.body { Body::Enum(e) => Some(e.rep.sc.size()), Body::Bits(b) => Some(b.rep.sc.size()), _ => None },
        _ => None,
    }
}
