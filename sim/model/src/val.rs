//! Values of specification types.
#[derive(Clone, PartialEq, Debug)]
pub enum V {
    U(u128), I(i128), F32(u32), F64(u64), Bool(bool), Str(String), Arr(Vec<V>),
    /// variant name, representation bits
    Enum(String, u128),
    Bits(u128),
    Rec(Vec<(String, V)>),
    Var(String, Box<V>),
    None,
    Some(Box<V>),
    New(Box<V>),
}
impl V {
    /// the value without the named fields
    pub fn without(&self, names: &std::collections::HashSet<String>) -> V {
        if names.is_empty() { return self.clone(); }
        match self {
            V::Arr(a) => V::Arr(a.iter().map(|x| x.without(names)).collect()),
            V::Rec(r) => V::Rec(r.iter().map(|(n, v)| (n.clone(), if names.contains(n) { V::None } else { v.without(names) })).collect()),
            V::Var(n, x) => V::Var(n.clone(), Box::new(x.without(names))),
            V::Some(x) => V::Some(Box::new(x.without(names))),
            V::New(x) => V::New(Box::new(x.without(names))),
            x => x.clone(),
        }
    }
    pub fn fmt(&self, o: &mut String, budget: usize) {
        use std::fmt::Write;
        if o.len() > budget { return; }
        match self {
            V::U(x) => { let _ = write!(o, "{}", x); }
            V::I(x) => { let _ = write!(o, "{}", x); }
            V::F32(x) => { let _ = write!(o, "f32:{:08x}", x); }
            V::F64(x) => { let _ = write!(o, "f64:{:016x}", x); }
            V::Bool(x) => { let _ = write!(o, "{}", x); }
            V::Str(x) => { let _ = write!(o, "{:?}", x.chars().take(60).collect::<String>()); }
            V::Enum(n, r) => { let _ = write!(o, "{}={:#x}", n, r); }
            V::Bits(x) => { let _ = write!(o, "bits:{:#x}", x); }
            V::None => o.push_str("None"),
            V::Some(x) => { o.push_str("Some("); x.fmt(o, budget); o.push(')'); }
            V::New(x) => { o.push_str("("); x.fmt(o, budget); o.push(')'); }
            V::Var(n, x) => { o.push_str(n); o.push('('); x.fmt(o, budget); o.push(')'); }
            V::Arr(v) => { o.push('['); for (i, x) in v.iter().enumerate() { if i > 0 { o.push(','); } if o.len() > budget { let _ = write!(o, "..{} items", v.len()); break; } x.fmt(o, budget); } o.push(']'); }
            V::Rec(v) => { o.push('{'); for (i, (n, x)) in v.iter().enumerate() { if i > 0 { o.push_str(", "); } o.push_str(n); o.push_str(": "); x.fmt(o, budget); } o.push('}'); }
        }
    }
    pub fn show(&self) -> String { let mut s = String::new(); self.fmt(&mut s, 600); s }
}
/// conversion between model values and generated Rust types
pub trait SimVal: Sized { fn to_v(&self) -> V; fn from_v(v: &V) -> Option<Self>; }
macro_rules! un { ($($t:ty),*) => { $(impl SimVal for $t { fn to_v(&self) -> V { V::U(*self as u128) } fn from_v(v: &V) -> Option<Self> { match v { V::U(x) => (*x).try_into().ok(), _ => None } } })* } }
macro_rules! si { ($($t:ty),*) => { $(impl SimVal for $t { fn to_v(&self) -> V { V::I(*self as i128) } fn from_v(v: &V) -> Option<Self> { match v { V::I(x) => (*x).try_into().ok(), _ => None } } })* } }
un!(u8, u16, u32, u64, u128);
si!(i8, i16, i32, i64, i128);
impl SimVal for f32 { fn to_v(&self) -> V { V::F32(self.to_bits()) } fn from_v(v: &V) -> Option<Self> { match v { V::F32(x) => Some(f32::from_bits(*x)), _ => None } } }
impl SimVal for f64 { fn to_v(&self) -> V { V::F64(self.to_bits()) } fn from_v(v: &V) -> Option<Self> { match v { V::F64(x) => Some(f64::from_bits(*x)), _ => None } } }
impl SimVal for bool { fn to_v(&self) -> V { V::Bool(*self) } fn from_v(v: &V) -> Option<Self> { match v { V::Bool(x) => Some(*x), _ => None } } }
impl SimVal for String { fn to_v(&self) -> V { V::Str(self.clone()) } fn from_v(v: &V) -> Option<Self> { match v { V::Str(x) => Some(x.clone()), _ => None } } }
impl<T: SimVal> SimVal for Vec<T> {
    fn to_v(&self) -> V { V::Arr(self.iter().map(|x| x.to_v()).collect()) }
    fn from_v(v: &V) -> Option<Self> { match v { V::Arr(x) => x.iter().map(T::from_v).collect(), _ => None } }
}
impl<T: SimVal> SimVal for Option<T> {
    fn to_v(&self) -> V { match self { None => V::None, Some(x) => V::Some(Box::new(x.to_v())) } }
    fn from_v(v: &V) -> Option<Self> { match v { V::None => Some(None), V::Some(x) => Some(Some(T::from_v(x)?)), _ => None } }
}
impl<T: SimVal> SimVal for Box<T> { fn to_v(&self) -> V { (**self).to_v() } fn from_v(v: &V) -> Option<Self> { Some(Box::new(T::from_v(v)?)) } }
