//! Seeded values of specification types.
use crate::ast::*;
use crate::codec::*;
use crate::eval::*;
use crate::tape::Tape;
use crate::val::V;
use std::collections::{HashMap, HashSet};

/// facts about a specification that steer generation
pub struct Hints { pub lits: Vec<u128>, pub min_size: HashMap<String, usize>, /// fields used as lengths or arguments, by type
    pub small: HashMap<String, HashSet<String>>, /// types that contain themselves
    pub recursive: HashSet<String> }
fn ids(e: &Expr, o: &mut HashSet<String>) { walk_expr(e, &mut |x| if let Expr::Id(n) = x { o.insert(n.clone()); }) }
impl Hints {
    pub fn new(spec: &Spec) -> Hints {
        let mut lits = vec![];
        let mut small = HashMap::new();
        for t in spec.types() {
            let mut sm = HashSet::new();
            walk_field(&t.field, &mut |e, r| { walk_expr(e, &mut |x| if let Expr::Int(v, _) = x { lits.push(*v) }); if matches!(r, Role::Len | Role::Arg) { ids(e, &mut sm); } });
            for (_, v) in enum_values(spec, &t.name) { if let Some(v) = v { lits.push(v) } }
            for (_, v) in bits_values(spec, &t.name) { lits.push(v) }
            small.insert(t.name.clone(), sm);
        }
        for d in &spec.decls { if let Decl::Const(c) = d { if let Expr::Int(v, _) = c.val { lits.push(v) } } }
        lits.sort(); lits.dedup();
        if lits.is_empty() { lits.push(1) }
        // arguments used as lengths inside the callee make the passed fields small: iterate to a fixed point is not needed,
        // every argument is treated as a possible length
        let mut h = Hints { lits, min_size: HashMap::new(), small, recursive: HashSet::new() };
        let reach: HashMap<String, std::collections::BTreeSet<String>> = spec.types().map(|t| (t.name.clone(), crate::modular::names(&Decl::Type(t.clone())))).collect();
        for t in reach.keys() {
            let mut seen: HashSet<&String> = HashSet::new();
            let mut todo: Vec<&String> = reach[t].iter().collect();
            while let Some(n) = todo.pop() { if let Some(m) = reach.get(n) { if seen.insert(n) { todo.extend(m.iter()) } } }
            if seen.contains(t) { h.recursive.insert(t.clone()); }
        }
        for _ in 0..8 { for t in spec.types() { let m = h.min_field(spec, &t.field, true); h.min_size.insert(t.name.clone(), m); } }
        h
    }
    fn min_field(&self, spec: &Spec, f: &Field, top: bool) -> usize {
        if f.cond.is_some() { let _ = top; return 0; }
        if !f.xf.is_empty() { return 0; }
        match &f.body {
            Body::Ty(t) => self.min_ty(spec, t),
            Body::Enum(e) => e.rep.sc.size(), Body::Bits(b) => b.rep.sc.size(), Body::Pad(_) => 0,
            Body::Cont(c) => if let Some(Expr::Int(n, _)) = c.len { n as usize } else if c.len.is_some() { 0 } else if c.tagged { c.fields.iter().map(|x| { let mut y = x.clone(); y.cond = None; self.min_field(spec, &y, false) }).min().unwrap_or(0) } else { c.fields.iter().map(|x| self.min_field(spec, x, false)).sum() },
        }
    }
    pub fn min_ty(&self, spec: &Spec, t: &Ty) -> usize {
        match t {
            Ty::Arr(t, l) => match &**l { Len::Fixed(Expr::Int(n, _)) => *n as usize * self.min_ty(spec, t), _ => 0 },
            Ty::Ref(n, a) => match spec.type_(n) { Some(_) => self.min_size.get(n).copied().unwrap_or(0), None => match &**n { "utf8" | "utf16" => if a.is_empty() { 1 } else { 0 }, "u24" => 3, _ => 1 } },
            t => prim_size(spec, t).unwrap_or(0),
        }
    }
}
pub struct Gen<'a> { pub m: &'a Model<'a>, pub h: &'a Hints, pub t: &'a mut Tape, pub budget: i64, pub big: bool, /// one length of this message is far beyond the usual
    pub huge: bool, pub allow: usize, /// how many types that contain themselves are open
    pub nest: u32 }
/// around the sizes at which buffers and narrow counters end
const HUGE: [usize; 12] = [300, 1023, 1025, 4095, 4096, 4097, 8192, 8193, 16385, 65535, 65536, 70001];
#[derive(Debug)]
pub struct Retry(pub &'static str);
type G<T> = Result<T, Retry>;

impl<'a> Gen<'a> {
    pub fn int(&mut self, sc: Sc, small: bool) -> V {
        if small {
            if self.huge && self.t.chance(1, 2) { let v = *self.t.pick(&HUGE) as u128; if v <= sc.max_u() { self.huge = false; return mk(sc, v); } }
            let v = self.t.below(match self.nest { 0 | 1 => if self.big { 24 } else { 6 }, 2 | 3 => 3, _ => 2 }) as u128; return mk(sc, v);
        }
        let k = self.t.weighted(&[4, 4, 3, 2, 2]);
        let v = match k {
            0 => { let l = self.h.lits.clone(); let v = *self.t.pick(&l); match self.t.below(6) { 4 => v.wrapping_add(1), 5 => v.wrapping_sub(1), _ => v } }
            1 => self.t.below(8) as u128,
            2 => { let b = self.t.below(sc.bits() as u64) as u32; let p = 1u128 << b; match self.t.below(3) { 0 => p, 1 => p.wrapping_sub(1), _ => !p } }
            3 => *self.t.pick(&[0, 1, u128::MAX, u128::MAX >> 1, 0x80, 0xff, 0x7fff, 0x8000, 0xffff, sc.max_u(), sc.max_u() + (sc.signed() as u128)]),
            _ => { let a = self.t.u64() as u128; if sc.size() > 8 { a << 64 | self.t.u64() as u128 } else { a } }
        };
        mk(sc, v)
    }
    fn count(&mut self) -> usize {
        if self.budget <= 0 { return 0; }
        if self.huge && self.t.chance(2, 3) { self.huge = false; return *self.t.pick(&HUGE); }
        let n = match self.t.weighted(&[10, 4, if self.big { 3 } else { 1 }]) { 0 => self.t.us(4), 1 => self.t.us(12), _ => self.t.us(if self.big { 400 } else { 60 }) };
        n.min(self.budget.max(0) as usize)
    }
    fn string(&mut self, want: Option<u64>, utf16: bool) -> String {
        let mut s = String::new();
        let n = match want { Some(n) => n as usize, None => self.count() };
        let unit = |c: char| if utf16 { c.len_utf16() } else { c.len_utf8() };
        let mut len = 0;
        while len < n {
            // long strings repeat themselves
            if len > 600 && n > 1200 { let (p, k) = (s.clone(), len); while len + k <= n { s.push_str(&p); len += k } while len < n { s.push('z'); len += 1 } break }
            let c = match self.t.weighted(&[6, 2, 2, 1]) { 0 => (b'a' + self.t.us(26) as u8) as char, 1 => *self.t.pick(&['é', 'ß', '\u{7ff}', ' ', '"', '\u{1}', '\u{7f}', '\u{80}']), 2 => *self.t.pick(&['中', '\u{ffff}', '\u{800}', '\u{d7ff}', '\u{e000}', '\u{feff}']), _ => *self.t.pick(&['😀', '\u{10000}', '\u{10ffff}']) };
            if len + unit(c) > n { s.push('z'); len += 1; continue; }
            s.push(c);
            len += unit(c);
        }
        self.budget -= len as i64;
        s
    }
    pub fn args(&mut self, t: &TypeDecl) -> Vec<V> {
        let mut n = t.args.len();
        while n > 0 && t.args[n - 1].default.is_some() && self.t.chance(1, 3) { n -= 1 }
        t.args[..n].iter().map(|a| match ety(self.m.spec, &a.ty) {
            ETy::Int(sc) => { let k = self.t.chance(1, 3); if k { self.int(sc, false) } else { let l = self.h.lits.clone(); let v = if self.t.chance(1, 2) { *self.t.pick(&l) } else { self.t.below(6) as u128 }; mk(sc, if v > 100 { v & 63 } else { v }) } }
            ETy::Enum(n) => { self.enum_(&n) }
            ETy::Bits(n) => { self.bits(&n) }
            ETy::Bool => V::Bool(self.t.chance(1, 2)),
            _ => V::None,
        }).collect()
    }
    fn enum_(&mut self, n: &str) -> V {
        let vs = enum_values(self.m.spec, n);
        let (name, r) = self.t.pick(&vs).clone();
        if let Some(r) = r { return V::Enum(name, r); }
        let Some(TypeDecl { field: Field { body: Body::Enum(e), .. }, .. }) = self.m.spec.type_(n) else { unreachable!() };
        let sc = e.rep.sc;
        for _ in 0..8 { let r = raw(&self.int(sc, false)).unwrap() & sc.mask(); if !vs.iter().any(|x| x.1 == Some(r)) { return V::Enum(name, r); } }
        for r in 0..=sc.mask() { if !vs.iter().any(|x| x.1 == Some(r)) { return V::Enum(name, r); } }
        unreachable!()
    }
    fn bits(&mut self, n: &str) -> V { let mut r = 0; for (_, v) in bits_values(self.m.spec, n) { if self.t.chance(1, 2) { r |= v } } V::Bits(r) }
    /// a value of a declared type that the model can encode, as the model reads it back, with its encoding
    pub fn value(&mut self, ty: &str, args: &[V]) -> Option<(V, Vec<u8>)> {
        for k in 0..12 {
            self.budget = if self.big { 1500 } else { 120 } >> (k / 3);
            self.huge &= k < 3;
            let huge = self.huge;
            self.allow = if huge { 80_000 } else { 3000 };
            let v = self.decl(ty, args, 0);
            self.huge = huge;
            let Ok(v) = v else { continue };
            let Ok(b) = self.m.encode(ty, args, &v) else { continue };
            if b.len() > if huge { 300_000 } else { 60_000 } { continue; }
            let mut s = Base::new(&b, End::Eof);
            match self.m.decode(ty, args, &mut s) { Ok(v2) if s.pos == b.len() => match self.m.encode(ty, args, &v2) { Ok(b2) if b2 == b => return Some((v2, b)), _ => continue }, _ => continue }
        }
        None
    }
    pub fn decl(&mut self, ty: &str, args: &[V], depth: u32) -> G<V> {
        let rec = self.h.recursive.contains(ty) as u32;
        self.nest += rec;
        let r = self.decl_(ty, args, depth);
        self.nest -= rec;
        r
    }
    fn decl_(&mut self, ty: &str, args: &[V], depth: u32) -> G<V> {
        if depth > 12 + 30 * (self.nest > 0) as u32 { return Err(Retry("depth")); }
        let spec = self.m.spec;
        let t = spec.type_(ty).ok_or(Retry("type"))?;
        let m = self.m;
        let mut sc = Scope::new(m, t, args, true);
        match &t.field.body {
            Body::Enum(_) => Ok(self.enum_(ty)),
            Body::Bits(_) => Ok(self.bits(ty)),
            Body::Ty(x) => {
                let on = match &t.field.cond { Some(c) => eval_bool(c, &sc).map_err(|_| Retry("cond"))?, None => true };
                if !on { return Ok(V::New(Box::new(V::None))); }
                let v = self.ty(&sc, x, depth, false)?;
                Ok(V::New(Box::new(if t.field.cond.is_some() { V::Some(Box::new(v)) } else { v })))
            }
            Body::Cont(c) if c.tagged => {
                for alt in &c.fields {
                    if let Some(e) = &alt.cond { if !eval_bool(e, &sc).map_err(|_| Retry("cond"))? { continue; } }
                    let v = match &alt.body {
                        Body::Cont(ic) => { let mut isc = Scope::new(m, t, args, true); isc.enter(ic, true); self.rec(&isc, ty, ic, depth)? }
                        Body::Ty(x) => self.ty(&sc, x, depth, false)?,
                        _ => return Err(Retry("alt")),
                    };
                    return Ok(V::Var(alt.name.clone(), Box::new(v)));
                }
                Err(Retry("no alternative"))
            }
            Body::Cont(c) => { let _ = &mut sc; self.rec(&sc, ty, c, depth) }
            Body::Pad(_) => Err(Retry("pad")),
        }
    }
    fn rec(&mut self, sc: &Scope<'a>, tyname: &str, c: &'a Cont, depth: u32) -> G<V> {
        // leaves with the conditions of every region around them
        fn leaves<'x>(c: &'x Cont, conds: &Vec<&'x Expr>, o: &mut Vec<(&'x Field, Vec<&'x Expr>, bool)>) {
            for f in &c.fields {
                let mut k = conds.clone();
                if let Some(x) = &f.cond { k.push(x) }
                match &f.body { Body::Cont(n) => leaves(n, &k, o), Body::Pad(_) => (), _ => { let opt = !k.is_empty(); o.push((f, k, opt)) } }
            }
        }
        let mut ls = vec![];
        leaves(c, &vec![], &mut ls);
        let small = self.h.small.get(tyname).cloned().unwrap_or_default();
        let mut todo: Vec<usize> = (0..ls.len()).collect();
        for pass in 0..3 {
            let mut again = vec![];
            for i in todo {
                let (f, conds, opt) = (&ls[i].0, &ls[i].1, ls[i].2);
                if f.calc.is_some() { continue; }
                let mut known = Some(true);
                for e in conds { match eval_bool(e, sc) { Ok(true) => (), Ok(false) => { known = Some(false); break } Err(EErr::Fuel) => { known = None } Err(_) => { known = Some(false); break } } }
                if known.is_none() && pass < 2 { again.push(i); continue; }
                if known == Some(false) { sc.set(&f.name, V::None); continue; }
                let Body::Ty(t) = &f.body else { return Err(Retry("body")) };
                let v = self.ty(sc, t, depth, small.contains(&f.name))?;
                sc.set(&f.name, if opt { V::Some(Box::new(v)) } else { v });
            }
            todo = again;
            if todo.is_empty() { break; }
        }
        // declared lengths: either set the length field or stretch the content
        for _ in 0..3 { if self.fit(sc, c)? { break; } }
        let mut o = vec![];
        for (f, _, opt) in &ls {
            let v = if f.calc.is_some() {
                let Body::Ty(t) = &f.body else { return Err(Retry("body")) };
                let v = self.ty(sc, t, depth, false).unwrap_or(V::U(0));
                if *opt { V::Some(Box::new(v)) } else { v }
            } else { sc.vals.borrow().get(&f.name).cloned().unwrap_or(V::None) };
            o.push((f.name.clone(), v));
        }
        Ok(V::Rec(o))
    }
    /// true when nothing had to change
    fn fit(&mut self, sc: &Scope<'a>, c: &'a Cont) -> G<bool> {
        let mut same = true;
        for f in &c.fields {
            if let Body::Cont(n) = &f.body {
                if let Some(e) = &f.cond { if !matches!(eval_bool(e, sc), Ok(true)) { continue; } }
                same &= self.fit(sc, n)?;
            }
        }
        let Some(l) = &c.len else { return Ok(same) };
        // forget memoised calculations
        for n in sc.calcs.keys() { sc.vals.borrow_mut().remove(*n); }
        let mut o = vec![];
        if self.m.enc_items(sc, c, &mut o).is_err() { return Ok(same); }
        let have = o.len() as u64;
        match eval_u64(l, sc) { Ok(w) if w == have => return Ok(same), Ok(w) => {
            if let Expr::Id(n) = l {
                if let (Some((ETy::Int(s), opt)), false) = (sc.types.get(n.as_str()), sc.calcs.contains_key(n.as_str())) {
                    if have as u128 <= s.max_u() { let v = mk(*s, have as u128); sc.set(n, if *opt { V::Some(Box::new(v)) } else { v }); return Ok(false); }
                }
            }
            // stretch or cut the last open byte array
            if let Some(Field { name, body: Body::Ty(Ty::Arr(t, ln)), calc: None, cond: None, .. }) = c.fields.last() {
                if **ln == Len::Open {
                    if let Some(k) = prim_size(self.m.spec, t) {
                        let cur = sc.vals.borrow().get(name).cloned();
                        let (mut vs, opt) = match cur { Some(V::Arr(v)) => (v, false), Some(V::Some(x)) => match *x { V::Arr(v) => (v, true), _ => return Ok(same) }, _ => return Ok(same) };
                        let diff = (w as i64 - have as i64) / k as i64;
                        let target = vs.len() as i64 + diff;
                        if target < 0 || target > 2 * self.allow as i64 { return Ok(same); }
                        while (vs.len() as i64) < target { if vs.len() > 600 { let v = vs[vs.len() % 61].clone(); vs.push(v); continue } let v = self.ty(sc, t, 0, false)?; vs.push(v); }
                        vs.truncate(target as usize);
                        let v = V::Arr(vs);
                        sc.set(name, if opt { V::Some(Box::new(v)) } else { v });
                        return Ok(false);
                    }
                }
            }
        } Err(_) => () }
        Ok(same)
    }
    pub fn ty(&mut self, sc: &Scope<'a>, t: &'a Ty, depth: u32, small: bool) -> G<V> {
        self.budget -= 1;
        Ok(match t {
            Ty::S(k) => self.int(k.sc, small),
            Ty::F32 => V::F32(match self.t.below(4) { 0 => 0, 1 => 1f32.to_bits(), 2 => *self.t.pick(&[0x7fc00000, 0x7f800000, 0x80000000, 1, 0xff800001, 0x42280000]), _ => self.t.u64() as u32 }),
            Ty::F64 => V::F64(match self.t.below(4) { 0 => 0, 1 => 1f64.to_bits(), 2 => *self.t.pick(&[0x7ff8000000000000, 0x7ff0000000000000, 1 << 63, 1, 0xfff0000000000001]), _ => self.t.u64() }),
            Ty::Bool => V::Bool(self.t.chance(1, 2)),
            Ty::Arr(e, l) => {
                let mut free = true;
                let n = match &**l {
                    Len::Fixed(x) => match eval_u64(x, sc).inspect(|_| free = false) { Ok(n) => { if n > self.allow as u64 { return Err(Retry("length")) } n as usize } Err(EErr::Fuel) => self.count(), Err(_) => return Err(Retry("length")) },
                    _ => if depth > 5 || self.nest > 2 { self.t.us(2) } else { self.count() },
                };
                let (mut o, mut each): (Vec<V>, usize) = (vec![], 0);
                let prim = prim_size(self.m.spec, e).is_some();
                let n = if n > 2000 && !prim && **l == Len::Open { 2000 } else { n };
                for _ in 0..n {
                    // long arrays repeat themselves
                    if n > 600 && o.len() == 8 && !prim { each = o.iter().map(nodes).sum::<usize>() / 80 }
                    if n > 600 && o.len() >= 8 && !prim {
                        // so that values stay cheap however many parts their elements have
                        if self.allow < each { if free { break } else { return Err(Retry("budget")) } }
                        self.allow -= each;
                    }
                    if n > 600 && o.len() >= if prim { 64 } else { 8 } { let v = o[(o.len() * 7 + o.len() / 61) % if prim { 64 } else { 8 }].clone(); o.push(v); continue }
                    if self.budget < -6000 { return Err(Retry("budget")); }
                    o.push(self.ty(sc, e, depth, false)?);
                }
                V::Arr(o)
            }
            Ty::Ref(n, args) => match self.m.spec.type_(n) {
                Some(td) => {
                    let mut a = vec![];
                    for (x, p) in args.iter().zip(&td.args) { a.push(eval(x, Some(&ety(self.m.spec, &p.ty)), sc).map_err(|_| Retry("arg"))?); }
                    if small { if let Body::Ty(Ty::S(k)) = &td.field.body { return Ok(V::New(Box::new(self.int(k.sc, true)))) } }
                    self.decl(n, &a, depth + 1)?
                }
                None => match &**n {
                    "utf8" | "utf16" => {
                        let want = match args.first() { Some(e) => match eval_u64(e, sc) { Ok(n) => { if n > self.allow as u64 { return Err(Retry("length")) } Some(n) } Err(EErr::Fuel) => None, Err(_) => return Err(Retry("length")) }, None => None };
                        V::Str(self.string(want, &**n == "utf16"))
                    }
                    "u24" => { let v = raw(&self.int(Sc::U32, small)).unwrap(); V::U(v & 0xffffff) }
                    n => self.int(vint_sc(n).ok_or(Retry("type"))?, small),
                },
            },
        })
    }
}
fn nodes(v: &V) -> usize {
    match v {
        V::Arr(x) => 4 + x.iter().map(nodes).sum::<usize>(),
        V::Rec(x) => 8 + x.iter().map(|x| 2 + nodes(&x.1)).sum::<usize>(),
        V::New(x) | V::Some(x) | V::Var(_, x) => 2 + nodes(x),
        V::Str(s) => 1 + s.len() / 16,
        _ => 1,
    }
}
