//! Expression typing and evaluation: exact integers, overflow and division by zero are errors.
use crate::ast::*;
use crate::val::V;
macro_rules! float_op { ($op:expr, $a:expr, $b:expr) => {{ let (a, b) = ($a, $b); match $op { Bop::Add => a + b, Bop::Sub => a - b, Bop::Mul => a * b, Bop::Div => a / b, Bop::Mod => a % b, _ => return Err(EErr::Type("float op".into())) } }} }
#[derive(Clone, PartialEq, Debug)]
pub enum ETy { Int(Sc), F32, F64, Bool, Text, Enum(String), Bits(String), Arr(Box<ETy>), Named(String) }
#[derive(Clone, PartialEq, Debug)]
pub enum EErr { Arith, Bounds, Missing, Type(String), Fuel }
pub type R<T> = Result<T, EErr>;
pub trait Env {
    fn spec(&self) -> &Spec;
    fn ty(&self, n: &str) -> Option<ETy>;
    fn get(&self, n: &str) -> R<V>;
    fn blen(&self, n: &str) -> R<u64>;
}
pub struct NoEnv<'a>(pub &'a Spec);
impl<'a> Env for NoEnv<'a> {
    fn spec(&self) -> &Spec { self.0 }
    fn ty(&self, _: &str) -> Option<ETy> { None }
    fn get(&self, n: &str) -> R<V> { Err(EErr::Type(format!("no {}", n))) }
    fn blen(&self, _: &str) -> R<u64> { Err(EErr::Type("blen".into())) }
}
pub fn vint_sc(n: &str) -> Option<Sc> { match n { "v8" => Some(Sc::I8), "v16" => Some(Sc::I16), "v32" => Some(Sc::I32), "v64" => Some(Sc::I64), "v128" => Some(Sc::I128), _ => None } }
pub fn ety(spec: &Spec, t: &Ty) -> ETy {
    match t {
        Ty::S(s) => ETy::Int(s.sc), Ty::F32 => ETy::F32, Ty::F64 => ETy::F64, Ty::Bool => ETy::Bool,
        Ty::Arr(t, _) => ETy::Arr(Box::new(ety(spec, t))),
        Ty::Ref(n, _) => match spec.type_(n) {
            Some(d) => match &d.field.body { Body::Enum(_) => ETy::Enum(n.clone()), Body::Bits(_) => ETy::Bits(n.clone()), _ => ETy::Named(n.clone()) },
            None => match &**n { "utf8" | "utf16" => ETy::Text, _ => vint_sc(n).map(ETy::Int).or_else(|| crate::xf::foreign_ety(n)).unwrap_or(ETy::Named(n.clone())) },
        },
    }
}
pub fn mk(sc: Sc, raw: u128) -> V { if sc.signed() { V::I(sc.sext(raw & sc.mask())) } else { V::U(raw & sc.mask()) } }
pub fn raw(v: &V) -> Option<u128> { match v { V::U(x) => Some(*x), V::I(x) => Some(*x as u128), V::Enum(_, r) => Some(*r), V::Bits(r) => Some(*r), V::Some(x) => raw(x), _ => None } }
pub fn infer(e: &Expr, env: &dyn Env) -> Option<ETy> {
    match e {
        Expr::Int(_, s) => s.map(ETy::Int),
        Expr::Bool(_) => Some(ETy::Bool),
        Expr::Str(_) => Some(ETy::Arr(Box::new(ETy::Int(Sc::U8)))),
        Expr::Id(n) => env.ty(n).or_else(|| env.spec().const_(n).map(|c| ety(env.spec(), &c.ty))),
        Expr::Variant(t, _) => Some(ETy::Enum(t.clone())),
        Expr::Bin(Bop::Lt | Bop::Gt | Bop::Le | Bop::Ge | Bop::Eq | Bop::Ne | Bop::Or | Bop::And, _, _) => Some(ETy::Bool),
        Expr::Bin(_, a, b) => infer(a, env).or_else(|| infer(b, env)),
        Expr::Un(Uop::Not, _) => Some(ETy::Bool),
        Expr::Un(_, a) => infer(a, env),
        Expr::Cast(_, t) => Some(ety(env.spec(), t)),
        Expr::Tern(_, a, b) => infer(a, env).or_else(|| infer(b, env)),
        Expr::Call(n, _) => Some(match &**n { "bits" => ETy::Int(Sc::U8), "len" | "blen" | "sum" | "pad" => ETy::Int(Sc::U64), n => crate::xf::func_ety(n)? }),
        Expr::Member(..) => Some(ETy::Bool),
        Expr::Index(a, _) => match infer(a, env)? { ETy::Arr(t) => Some(*t), _ => None },
    }
}
fn rep_of(spec: &Spec, t: &ETy) -> Option<Sc> {
    match t {
        ETy::Int(s) => Some(*s),
        ETy::Enum(n) | ETy::Bits(n) => match &spec.type_(n)?.field.body { Body::Enum(e) => Some(e.rep.sc), Body::Bits(b) => Some(b.rep.sc), _ => None },
        _ => None,
    }
}
fn unwrap(v: V) -> R<V> { match v { V::Some(x) => Ok(*x), V::None => Err(EErr::Missing), v => Ok(v) } }
fn boolv(v: V) -> R<bool> { match unwrap(v)? { V::Bool(b) => Ok(b), v => Err(EErr::Type(format!("bool {:?}", v))) } }
pub fn eval_bool(e: &Expr, env: &dyn Env) -> R<bool> { boolv(eval(e, Some(&ETy::Bool), env)?) }
pub fn eval_u64(e: &Expr, env: &dyn Env) -> R<u64> {
    match eval(e, Some(&ETy::Int(Sc::U64)), env)? { V::U(x) => Ok(x as u64), v => Err(EErr::Type(format!("u64 {:?}", v))) }
}
/// evaluates; an expected integer type coerces operands the way an assignment to that type does
pub fn eval(e: &Expr, want: Option<&ETy>, env: &dyn Env) -> R<V> {
    let spec = env.spec();
    let v = match e {
        Expr::Int(v, s) => {
            let sc = s.or(match want { Some(ETy::Int(s)) => Some(*s), _ => None }).ok_or(EErr::Type("literal".into()))?;
            if *v > sc.max_u() { return Err(EErr::Type("literal range".into())); }
            mk(sc, *v)
        }
        Expr::Bool(b) => V::Bool(*b),
        Expr::Str(b) => V::Arr(b.iter().map(|x| V::U(*x as u128)).collect()),
        Expr::Id(n) => {
            if env.ty(n).is_some() { let v = env.get(n)?; if let (V::None | V::Some(_), Some(_)) = (&v, want) { unwrap(v)? } else { v } }
            else if let Some(c) = spec.const_(n) { eval(&c.val, Some(&ety(spec, &c.ty)), env)? }
            else { return Err(EErr::Type(format!("unknown {}", n))) }
        }
        Expr::Variant(t, v) => V::Enum(v.clone(), enum_value(spec, t, v).ok_or(EErr::Type("variant".into()))?),
        Expr::Bin(Bop::And, a, b) => V::Bool(eval_bool(a, env)? && eval_bool(b, env)?),
        Expr::Bin(Bop::Or, a, b) => V::Bool(eval_bool(a, env)? || eval_bool(b, env)?),
        Expr::Bin(Bop::Elvis, a, b) => {
            let t = infer(a, env).or(want.cloned());
            match eval(a, None, env)? { V::None => eval(b, t.as_ref(), env)?, V::Some(x) => *x, v => v }
        }
        Expr::Bin(op @ (Bop::Lt | Bop::Gt | Bop::Le | Bop::Ge | Bop::Eq | Bop::Ne), a, b) => {
            let t = infer(a, env).or_else(|| infer(b, env)).ok_or(EErr::Type("uninferred".into()))?;
            let x = unwrap(eval(a, Some(&t), env)?)?;
            let y = unwrap(eval(b, Some(&t), env)?)?;
            use std::cmp::Ordering::*;
            let c = match (&x, &y) {
                (V::U(a), V::U(b)) => Some(a.cmp(b)), (V::I(a), V::I(b)) => Some(a.cmp(b)), (V::Bool(a), V::Bool(b)) => Some(a.cmp(b)),
                (V::Enum(_, a), V::Enum(_, b)) => Some(a.cmp(b)), (V::Bits(a), V::Bits(b)) => Some(a.cmp(b)),
                (V::F32(a), V::F32(b)) => f32::from_bits(*a).partial_cmp(&f32::from_bits(*b)), (V::F64(a), V::F64(b)) => f64::from_bits(*a).partial_cmp(&f64::from_bits(*b)),
                (a, b) => if a == b { Some(Equal) } else { None },
            };
            V::Bool(match op { Bop::Lt => c == Some(Less), Bop::Gt => c == Some(Greater), Bop::Le => matches!(c, Some(Less | Equal)), Bop::Ge => matches!(c, Some(Greater | Equal)),
                Bop::Eq => c == Some(Equal), _ => c != Some(Equal) })
        }
        Expr::Bin(op, a, b) => {
            let t = match want { Some(t @ (ETy::Int(_) | ETy::F32 | ETy::F64)) => t.clone(), _ => infer(a, env).or_else(|| infer(b, env)).ok_or(EErr::Type("uninferred".into()))? };
            let x = unwrap(eval(a, Some(&t), env)?)?;
            let y = unwrap(eval(b, Some(&t), env)?)?;
            if let (ETy::Bits(_), V::Bits(x), V::Bits(y)) = (&t, &x, &y) {
                return Ok(V::Bits(match op { Bop::BitOr => x | y, Bop::BitAnd => x & y, Bop::BitXor => x ^ y, _ => return Err(EErr::Type("bits op".into())) }));
            }
            match (&x, &y) {
                (V::F32(x), V::F32(y)) => return Ok(V::F32(float_op!(*op, f32::from_bits(*x), f32::from_bits(*y)).to_bits())),
                (V::F64(x), V::F64(y)) => return Ok(V::F64(float_op!(*op, f64::from_bits(*x), f64::from_bits(*y)).to_bits())),
                _ => (),
            }
            let sc = match t { ETy::Int(s) => s, t => return Err(EErr::Type(format!("arith {:?}", t))) };
            arith(*op, sc, &x, &y)?
        }
        Expr::Un(Uop::Not, a) => V::Bool(!eval_bool(a, env)?),
        Expr::Un(op, a) => {
            let t = match want { Some(t @ (ETy::Int(_) | ETy::F32 | ETy::F64)) => t.clone(), _ => infer(a, env).ok_or(EErr::Type("uninferred".into()))? };
            let x = unwrap(eval(a, Some(&t), env)?)?;
            match (&x, op) { (V::F32(x), Uop::Neg) => return Ok(V::F32(x ^ 1 << 31)), (V::F64(x), Uop::Neg) => return Ok(V::F64(x ^ 1 << 63)), _ => () }
            let sc = match (&t, &x) { (ETy::Int(s), _) => *s, _ => return Err(EErr::Type("unary".into())) };
            match op { Uop::BitNot => mk(sc, !raw(&x).unwrap()), _ => arith(Bop::Sub, sc, &mk(sc, 0), &x)? }
        }
        Expr::Cast(a, t) => {
            let from = infer(a, env).ok_or(EErr::Type("uninferred".into()))?;
            let x = unwrap(eval(a, Some(&from), env)?)?;
            cast_v(spec, &x, &from, &ety(spec, t))?
        }
        Expr::Tern(c, a, b) => {
            let t = want.cloned().or_else(|| infer(a, env)).or_else(|| infer(b, env));
            if eval_bool(c, env)? { eval(a, t.as_ref(), env)? } else { eval(b, t.as_ref(), env)? }
        }
        Expr::Call(n, args) => match (&**n, &args[..]) {
            ("blen", [Expr::Id(x)]) => V::U(env.blen(x)? as u128),
            ("len", [a]) => {
                let t = infer(a, env).ok_or(EErr::Type("len".into()))?;
                match (&t, unwrap(eval(a, None, env)?)?) {
                    (_, V::Arr(v)) => V::U(v.len() as u128), (_, V::Str(s)) => V::U(s.len() as u128),
                    (_, V::F32(_)) => V::U(4), (_, V::F64(_)) => V::U(8), (_, V::Bool(_)) => V::U(1),
                    (t, _) => V::U(rep_of(spec, t).ok_or(EErr::Type("len".into()))?.size() as u128),
                }
            }
            ("sum", [a]) => match unwrap(eval(a, None, env)?)? {
                V::Arr(v) => { let mut s = 0u128; for x in &v { s += raw(x).ok_or(EErr::Type("sum".into()))? & u64::MAX as u128; if s > u64::MAX as u128 { return Err(EErr::Arith) } } V::U(s) }
                _ => return Err(EErr::Type("sum".into())),
            },
            ("bits", [a]) => V::U(eval_u64(a, env)?.count_ones() as u128),
            ("pad", [p, b]) => { let (p, b) = (eval_u64(p, env)?, eval_u64(b, env)?); if p == 0 { return Err(EErr::Arith) } V::U(((p - b % p) % p) as u128) }
            (n, a) => {
                let mut vs = vec![];
                for (i, x) in a.iter().enumerate() { vs.push(unwrap(eval(x, crate::xf::func_arg_ety(n, i).as_ref(), env)?)?); }
                crate::xf::func_call(n, &vs).ok_or(EErr::Type(format!("fn {}", n)))?
            }
        },
        Expr::Member(a, m) => {
            let t = infer(a, env).ok_or(EErr::Type("member".into()))?;
            match (unwrap(eval(a, Some(&t), env)?)?, t) {
                (V::Bits(x), ETy::Bits(n)) => V::Bool(x & bits_value(spec, &n, m).ok_or(EErr::Type("bit".into()))? != 0),
                _ => return Err(EErr::Type("member".into())),
            }
        }
        Expr::Index(a, i) => {
            let v = unwrap(eval(a, None, env)?)?;
            let i = eval_u64(i, env)?;
            match v { V::Arr(v) => { if i >= v.len() as u64 { return Err(EErr::Bounds) } v[i as usize].clone() } _ => return Err(EErr::Type("index".into())) }
        }
    };
    // implicit widening to the expected type
    match (want, &v) {
        (Some(ETy::F64), V::F32(a)) => Ok(V::F64((f32::from_bits(*a) as f64).to_bits())),
        (Some(ETy::Int(s)), V::U(_) | V::I(_)) => Ok(if matches!(e, Expr::Call(..)) || true { coerce_int(*s, &v) } else { v }),
        (Some(ETy::Int(s)), V::Enum(_, r)) => { let from = infer(e, env).and_then(|t| rep_of(spec, &t)).unwrap_or(*s); Ok(coerce_int(*s, &mk(from, *r))) }
        (Some(ETy::Int(s)), V::Bits(r)) => { let from = infer(e, env).and_then(|t| rep_of(spec, &t)).unwrap_or(*s); Ok(coerce_int(*s, &mk(from, *r))) }
        _ => Ok(v),
    }
}
fn coerce_int(s: Sc, v: &V) -> V { mk(s, raw(v).unwrap()) }
fn cast_v(spec: &Spec, x: &V, from: &ETy, to: &ETy) -> R<V> {
    Ok(match (x, to) {
        (V::U(_) | V::I(_), ETy::Int(s)) => mk(*s, raw(x).unwrap()),
        (V::Enum(_, r) | V::Bits(r), ETy::Int(s)) => { let f = rep_of(spec, from).ok_or(EErr::Type("cast".into()))?; mk(*s, raw(&mk(f, *r)).unwrap()) }
        (V::F32(a), ETy::F32) => V::F32(*a), (V::F64(a), ETy::F64) => V::F64(*a),
        (V::F32(a), ETy::F64) => V::F64((f32::from_bits(*a) as f64).to_bits()), (V::F64(a), ETy::F32) => V::F32((f64::from_bits(*a) as f32).to_bits()),
        (V::U(a), ETy::F32) => V::F32((*a as f32).to_bits()), (V::U(a), ETy::F64) => V::F64((*a as f64).to_bits()),
        (V::I(a), ETy::F32) => V::F32((*a as f32).to_bits()), (V::I(a), ETy::F64) => V::F64((*a as f64).to_bits()),
        (V::F32(_) | V::F64(_), ETy::Int(s)) => { let d = match x { V::F32(a) => f32::from_bits(*a) as f64, V::F64(a) => f64::from_bits(*a), _ => 0.0 };
            if s.signed() { let (lo, hi) = (s.sext(1u128 << (s.bits() - 1)), s.max_u() as i128); V::I((d as i128).clamp(lo, hi)) } else { V::U((d as u128).min(s.max_u())) } }
        (V::Bool(b), ETy::Bool) => V::Bool(*b),
        _ => return Err(EErr::Type("cast".into())),
    })
}
fn arith(op: Bop, sc: Sc, x: &V, y: &V) -> R<V> {
    let (rx, ry) = (raw(x).unwrap(), raw(y).unwrap());
    match op {
        Bop::BitOr => return Ok(mk(sc, rx | ry)), Bop::BitAnd => return Ok(mk(sc, rx & ry)), Bop::BitXor => return Ok(mk(sc, rx ^ ry)),
        Bop::Shl | Bop::Shr | Bop::ShrS => {
            let n = match y { V::I(i) if *i < 0 => return Err(EErr::Arith), _ => ry };
            if n >= sc.bits() as u128 { return Err(EErr::Arith); }
            return Ok(if op == Bop::Shl { mk(sc, rx << n) } else if sc.signed() { V::I(sc.sext(rx & sc.mask()) >> n) } else { mk(sc, (rx & sc.mask()) >> n) });
        }
        _ => (),
    }
    if sc.signed() {
        let (a, b) = (sc.sext(rx & sc.mask()), sc.sext(ry & sc.mask()));
        let r = match op { Bop::Add => a.checked_add(b), Bop::Sub => a.checked_sub(b), Bop::Mul => a.checked_mul(b), Bop::Div => a.checked_div(b), Bop::Mod => a.checked_rem(b), _ => None }.ok_or(EErr::Arith)?;
        if op == Bop::Mod && b == -1 && a == sc.sext(1u128 << (sc.bits() - 1)) { return Err(EErr::Arith); }
        if sc.sext(r as u128 & sc.mask()) != r { return Err(EErr::Arith); }
        Ok(V::I(r))
    } else {
        let (a, b) = (rx & sc.mask(), ry & sc.mask());
        let r = match op { Bop::Add => a.checked_add(b), Bop::Sub => a.checked_sub(b), Bop::Mul => a.checked_mul(b), Bop::Div => a.checked_div(b), Bop::Mod => a.checked_rem(b), _ => None }.ok_or(EErr::Arith)?;
        if r > sc.mask() { return Err(EErr::Arith); }
        Ok(V::U(r))
    }
}
/// declared representation of every variant that has one
pub fn enum_values(spec: &Spec, name: &str) -> Vec<(String, Option<u128>)> {
    let Some(TypeDecl { field: Field { body: Body::Enum(e), .. }, .. }) = spec.type_(name) else { return vec![] };
    let mut o = vec![];
    let mut base = 0u128;
    let mut k = 0u128;
    for (n, it) in &e.items {
        match it {
            EItem::Expr(x) => { let v = eval(x, Some(&ETy::Int(e.rep.sc)), &NoEnv(spec)).map(|v| raw(&v).unwrap()).unwrap_or(0); base = v; k = 1; o.push((n.clone(), Some(v & e.rep.sc.mask()))); }
            EItem::Next => { o.push((n.clone(), Some(base.wrapping_add(k) & e.rep.sc.mask()))); k += 1; }
            EItem::Default => { o.push((n.clone(), None)); }
        }
    }
    o
}
pub fn enum_value(spec: &Spec, t: &str, v: &str) -> Option<u128> { enum_values(spec, t).into_iter().find(|(n, _)| n == v)?.1 }
pub fn bits_values(spec: &Spec, name: &str) -> Vec<(String, u128)> {
    let Some(TypeDecl { field: Field { body: Body::Bits(b), .. }, .. }) = spec.type_(name) else { return vec![] };
    let mut o = vec![];
    let mut base = 0u128;
    let mut k = 0u32;
    for (n, it) in &b.items {
        match it {
            Some(x) => { let v = eval(x, Some(&ETy::Int(b.rep.sc)), &NoEnv(spec)).map(|v| raw(&v).unwrap()).unwrap_or(0) & b.rep.sc.mask(); base = v; k = 1; o.push((n.clone(), v)); }
            None => { o.push((n.clone(), (base << k) & b.rep.sc.mask())); k += 1; }
        }
    }
    o
}
pub fn bits_value(spec: &Spec, t: &str, m: &str) -> Option<u128> { bits_values(spec, t).into_iter().find(|(n, _)| n == m).map(|x| x.1) }
