//! Specification syntax and printer.
use std::fmt::Write;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum Sc { U8, U16, U32, U64, U128, I8, I16, I32, I64, I128 }
pub const ALL_SC: [Sc; 10] = [Sc::U8, Sc::U16, Sc::U32, Sc::U64, Sc::U128, Sc::I8, Sc::I16, Sc::I32, Sc::I64, Sc::I128];
impl Sc {
    pub fn size(self) -> usize {
        match self { Sc::U8 | Sc::I8 => 1, Sc::U16 | Sc::I16 => 2, Sc::U32 | Sc::I32 => 4, Sc::U64 | Sc::I64 => 8, _ => 16 }
    }
    pub fn bits(self) -> u32 { self.size() as u32 * 8 }
    pub fn signed(self) -> bool { matches!(self, Sc::I8 | Sc::I16 | Sc::I32 | Sc::I64 | Sc::I128) }
    pub fn name(self) -> &'static str {
        match self { Sc::U8 => "u8", Sc::U16 => "u16", Sc::U32 => "u32", Sc::U64 => "u64", Sc::U128 => "u128",
            Sc::I8 => "i8", Sc::I16 => "i16", Sc::I32 => "i32", Sc::I64 => "i64", Sc::I128 => "i128" }
    }
    pub fn from_name(s: &str) -> Option<Sc> { ALL_SC.iter().copied().find(|x| x.name() == s) }
    pub fn mask(self) -> u128 { if self.bits() == 128 { u128::MAX } else { (1u128 << self.bits()) - 1 } }
    /// bit pattern -> value interpretation as i128 for signed types
    pub fn sext(self, raw: u128) -> i128 {
        let sh = 128 - self.bits();
        ((raw << sh) as i128) >> sh
    }
    /// does the mathematical value (given as sign + magnitude through i128/u128) fit
    pub fn max_u(self) -> u128 { if self.signed() { self.mask() >> 1 } else { self.mask() } }
}
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub struct Scal { pub sc: Sc, pub le: bool }
impl Scal {
    pub fn be(sc: Sc) -> Scal { Scal { sc, le: false } }
    pub fn text(self) -> String { format!("{}{}", self.sc.name(), if self.le { "le" } else { "" }) }
}
#[derive(Clone, PartialEq, Debug)]
pub enum Ty { S(Scal), F32, F64, Bool, Arr(Box<Ty>, Box<Len>), Ref(String, Vec<Expr>) }
#[derive(Clone, PartialEq, Debug)]
pub enum Len { Fixed(Expr), Open, Term(Expr) }
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Bop { Lt, Gt, Le, Ge, Eq, Ne, Or, And, BitOr, BitAnd, BitXor, Shr, Shl, ShrS, Add, Sub, Mul, Div, Mod, Elvis }
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Uop { Neg, Not, BitNot }
#[derive(Clone, PartialEq, Debug)]
pub enum Expr {
    Int(u128, Option<Sc>), Bool(bool), Str(Vec<u8>), Id(String), Variant(String, String),
    Bin(Bop, Box<Expr>, Box<Expr>), Un(Uop, Box<Expr>), Cast(Box<Expr>, Ty), Tern(Box<Expr>, Box<Expr>, Box<Expr>),
    Call(String, Vec<Expr>), Member(Box<Expr>, String), Index(Box<Expr>, Box<Expr>),
}
#[derive(Clone, PartialEq, Debug)]
pub struct Xf { pub name: String, pub args: Vec<Expr>, pub cond: Option<Expr> }
#[derive(Clone, PartialEq, Debug)]
pub enum EItem { Expr(Expr), Next, Default }
#[derive(Clone, PartialEq, Debug)]
pub struct EnumD { pub rep: Scal, pub items: Vec<(String, EItem)> }
#[derive(Clone, PartialEq, Debug)]
pub struct BitsD { pub rep: Scal, pub items: Vec<(String, Option<Expr>)> }
#[derive(Clone, PartialEq, Debug)]
pub struct Cont { pub len: Option<Expr>, pub tagged: bool, pub fields: Vec<Field> }
#[derive(Clone, PartialEq, Debug)]
pub enum Body { Ty(Ty), Cont(Cont), Enum(EnumD), Bits(BitsD), Pad(Expr) }
#[derive(Clone, PartialEq, Debug)]
pub struct Field { pub name: String, pub body: Body, pub cond: Option<Expr>, pub calc: Option<Expr>, pub xf: Vec<Xf> }
impl Field {
    pub fn new(name: &str, body: Body) -> Field { Field { name: name.into(), body, cond: None, calc: None, xf: vec![] } }
    pub fn ty(name: &str, ty: Ty) -> Field { Field::new(name, Body::Ty(ty)) }
    pub fn pad(e: Expr) -> Field { Field::new("", Body::Pad(e)) }
    pub fn cond(mut self, e: Expr) -> Field { self.cond = Some(e); self }
    pub fn calc(mut self, e: Expr) -> Field { self.calc = Some(e); self }
    pub fn xf(mut self, x: Xf) -> Field { self.xf.push(x); self }
}
#[derive(Clone, PartialEq, Debug)]
pub struct Arg { pub name: String, pub ty: Ty, pub default: Option<Expr> }
#[derive(Clone, PartialEq, Debug)]
pub struct TypeDecl { pub name: String, pub args: Vec<Arg>, pub field: Field }
#[derive(Clone, PartialEq, Debug)]
pub struct ConstDecl { pub name: String, pub ty: Ty, pub val: Expr }
#[derive(Clone, PartialEq, Debug)]
pub enum Decl { Type(TypeDecl), Const(ConstDecl), Ffi(String, String), Import(Vec<(String, Option<String>)>, String) }
#[derive(Clone, PartialEq, Debug, Default)]
pub struct Spec { pub decls: Vec<Decl> }

impl Spec {
    pub fn types(&self) -> impl Iterator<Item = &TypeDecl> { self.decls.iter().filter_map(|d| match d { Decl::Type(t) => Some(t), _ => None }) }
    pub fn type_(&self, name: &str) -> Option<&TypeDecl> { self.types().find(|t| t.name == name) }
    pub fn const_(&self, name: &str) -> Option<&ConstDecl> { self.decls.iter().find_map(|d| match d { Decl::Const(c) if c.name == name => Some(c), _ => None }) }
    pub fn ffi(&self, name: &str) -> Option<&str> { self.decls.iter().find_map(|d| match d { Decl::Ffi(n, k) if n == name => Some(&**k), _ => None }) }
    pub fn print(&self) -> String {
        let mut o = String::new();
        for d in &self.decls {
            match d {
                Decl::Ffi(n, k) => { let _ = writeln!(o, "import_ffi {} as {};", n, k); }
                Decl::Import(items, from) => {
                    let l: Vec<String> = items.iter().map(|(n, a)| match a { Some(a) => format!("{} as {}", n, a), None => n.clone() }).collect();
                    let _ = writeln!(o, "import {} from \"{}\";", l.join(", "), from);
                }
                Decl::Const(c) => { let _ = writeln!(o, "const {}: {} = {};", c.name, ty(&c.ty), expr(&c.val, 0)); }
                Decl::Type(t) => {
                    let mut a = String::new();
                    if !t.args.is_empty() {
                        let l: Vec<String> = t.args.iter().map(|x| format!("{}: {}{}", x.name, ty(&x.ty),
                            x.default.as_ref().map(|d| format!(" ? {}", expr(d, 0))).unwrap_or_default())).collect();
                        a = format!("({})", l.join(", "));
                    }
                    let _ = writeln!(o, "type {}{} = {};", t.name, a, field_tail(&t.field, 0));
                }
            }
        }
        o
    }
}
fn ind(n: usize) -> String { "    ".repeat(n) }
pub fn ty(t: &Ty) -> String {
    match t {
        Ty::S(s) => s.text(), Ty::F32 => "f32".into(), Ty::F64 => "f64".into(), Ty::Bool => "bool".into(),
        Ty::Arr(t, l) => {
            // suffixes are applied innermost first
            format!("{}[{}]", ty(t), match &**l { Len::Fixed(e) => expr(e, 0), Len::Open => "..".into(), Len::Term(e) => format!("..{}", expr(e, 0)) })
        }
        Ty::Ref(n, a) if a.is_empty() => n.clone(),
        Ty::Ref(n, a) => format!("{}({})", n, a.iter().map(|e| expr(e, 0)).collect::<Vec<_>>().join(", ")),
    }
}
fn field_tail(f: &Field, d: usize) -> String {
    let mut o = match &f.body {
        Body::Ty(t) => ty(t),
        Body::Pad(e) => return expr(e, 0),
        Body::Enum(e) => {
            let mut s = format!("enum {} {{\n", e.rep.text());
            for (n, i) in &e.items {
                let _ = writeln!(s, "{}{}{},", ind(d + 1), n, match i { EItem::Expr(e) => format!(" = {}", expr(e, 0)), EItem::Next => String::new(), EItem::Default => " = default".into() });
            }
            s + &ind(d) + "}"
        }
        Body::Bits(e) => {
            let mut s = format!("bitfield {} {{\n", e.rep.text());
            for (n, i) in &e.items {
                let _ = writeln!(s, "{}{}{},", ind(d + 1), n, match i { Some(e) => format!(" = {}", expr(e, 0)), None => String::new() });
            }
            s + &ind(d) + "}"
        }
        Body::Cont(c) => {
            let mut s = String::from("container ");
            if let Some(l) = &c.len { let _ = write!(s, "[{}] ", expr(l, 0)); }
            if c.tagged { s += "+tagged_enum "; }
            s += "{\n";
            for x in &c.fields {
                let n = if matches!(x.body, Body::Pad(_)) { ".pad" } else { &x.name };
                let _ = writeln!(s, "{}{}: {},", ind(d + 1), n, field_tail(x, d + 1));
            }
            s + &ind(d) + "}"
        }
    };
    if let Some(c) = &f.calc { let _ = write!(o, " = {}", expr(c, 0)); }
    if let Some(c) = &f.cond { let _ = write!(o, " {{ {} }}", expr(c, 0)); }
    for x in &f.xf {
        let _ = write!(o, " -> {}", x.name);
        if !x.args.is_empty() { let _ = write!(o, "({})", x.args.iter().map(|e| expr(e, 0)).collect::<Vec<_>>().join(", ")); }
        if let Some(c) = &x.cond { let _ = write!(o, " {{ {} }}", expr(c, 0)); }
    }
    o
}
pub fn bop_text(b: Bop) -> &'static str {
    use Bop::*;
    match b { Lt => "<", Gt => ">", Le => "<=", Ge => ">=", Eq => "==", Ne => "!=", Or => "||", And => "&&", BitOr => "|", BitAnd => "&",
        BitXor => "^", Shr => ">>", Shl => "<<", ShrS => ">>>", Add => "+", Sub => "-", Mul => "*", Div => "/", Mod => "%", Elvis => "?:" }
}
/// binding strength of each documented level, loosest first
pub fn bop_level(b: Bop) -> u8 {
    use Bop::*;
    match b { Or => 1, And => 2, BitOr => 3, BitXor => 4, BitAnd => 5, Eq | Ne => 6, Lt | Le | Gt | Ge => 7, Shl | Shr | ShrS => 8, Add | Sub => 9,
        Mul | Div | Mod => 10, Elvis => 11 }
}
/// prints with only the parentheses the documented precedence requires
pub fn expr(e: &Expr, min: u8) -> String {
    let (lvl, s) = match e {
        Expr::Int(v, s) => (15, {
            let suf = s.map(|s| s.name()).unwrap_or("");
            // a deterministic mix of decimal and hexadecimal literals
            match (v ^ (v >> 5) ^ (v >> 11)) % 7 { 0 | 3 if *v > 0 => format!("0x{:x}{}", v, suf), 1 if *v > 9 => format!("0x{:X}{}", v, suf), 5 if *v > 9 => format!("0x0{:x}{}", v, suf), _ => format!("{}{}", v, suf) }
        }),
        Expr::Bool(b) => (15, b.to_string()),
        Expr::Str(b) => (15, str_lit(b)),
        Expr::Id(n) => (15, n.clone()),
        Expr::Variant(a, b) => (15, format!("{}::{}", a, b)),
        Expr::Bin(Bop::Elvis, a, b) => (11, format!("{} ?: {}", expr(a, 11), expr(b, 12))),
        Expr::Bin(op, a, b) => { let l = bop_level(*op); (l, format!("{} {} {}", expr(a, l), bop_text(*op), expr(b, l + 1))) }
        Expr::Un(op, a) => (12, format!("{}{}", match op { Uop::Neg => "-", Uop::Not => "!", Uop::BitNot => "~" }, expr(a, 12))),
        Expr::Cast(a, t) => (11, format!("{} :> {}", expr(a, 11), ty(t))),
        Expr::Tern(c, a, b) => (0, format!("{} ? {} : {}", expr(c, 1), expr(a, 0), expr(b, 1))),
        Expr::Call(n, a) => (15, format!("{}({})", n, a.iter().map(|e| expr(e, 0)).collect::<Vec<_>>().join(", "))),
        Expr::Member(a, n) => (14, format!("{}.{}", expr(a, 14), n)),
        Expr::Index(a, i) => (14, format!("{}[{}]", expr(a, 14), expr(i, 0))),
    };
    if lvl < min { format!("({})", s) } else { s }
}
pub fn str_lit(b: &[u8]) -> String {
    let mut o = String::from("\"");
    for &c in b {
        match c {
            b'"' => o += "\\\"", b'\\' => o += "\\\\",
            0x20..=0x7e => o.push(c as char),
            _ => { let _ = write!(o, "\\{:02x}", c); }
        }
    }
    o + "\""
}
pub fn int(v: u128) -> Expr { Expr::Int(v, None) }
pub fn ints(v: u128, s: Sc) -> Expr { Expr::Int(v, Some(s)) }
pub fn id(n: &str) -> Expr { Expr::Id(n.into()) }
pub fn bin(op: Bop, a: Expr, b: Expr) -> Expr { Expr::Bin(op, Box::new(a), Box::new(b)) }
pub fn un(op: Uop, a: Expr) -> Expr { Expr::Un(op, Box::new(a)) }
pub fn cast(a: Expr, s: Sc) -> Expr { Expr::Cast(Box::new(a), Ty::S(Scal::be(s))) }
pub fn call(n: &str, a: Vec<Expr>) -> Expr { Expr::Call(n.into(), a) }
pub fn s(sc: Sc) -> Ty { Ty::S(Scal::be(sc)) }
pub fn le(sc: Sc) -> Ty { Ty::S(Scal { sc, le: sc.size() > 1 }) }
pub fn arr(t: Ty, l: Len) -> Ty { Ty::Arr(Box::new(t), Box::new(l)) }
pub fn rf(n: &str) -> Ty { Ty::Ref(n.into(), vec![]) }

/// walks every expression in a field (lengths, arguments, conditions, calculations, nested fields)
pub fn walk_ty<'a>(t: &'a Ty, f: &mut dyn FnMut(&'a Expr, Role)) {
    match t {
        Ty::Arr(t, l) => { walk_ty(t, f); match &**l { Len::Fixed(e) => f(e, Role::Len), Len::Term(e) => f(e, Role::Other), Len::Open => () } }
        Ty::Ref(_, a) => for e in a { f(e, Role::Arg) },
        _ => (),
    }
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Role { Len, Arg, Cond, Calc, Other }
pub fn walk_field<'a>(fl: &'a Field, f: &mut dyn FnMut(&'a Expr, Role)) {
    match &fl.body {
        Body::Ty(t) => walk_ty(t, f),
        Body::Pad(e) => f(e, Role::Len),
        Body::Cont(c) => { if let Some(l) = &c.len { f(l, Role::Len) } for x in &c.fields { walk_field(x, f) } }
        Body::Enum(_) | Body::Bits(_) => (),
    }
    if let Some(e) = &fl.cond { f(e, Role::Cond) }
    if let Some(e) = &fl.calc { f(e, Role::Calc) }
    for x in &fl.xf { for e in &x.args { f(e, Role::Other) } if let Some(e) = &x.cond { f(e, Role::Cond) } }
}
pub fn walk_expr<'a>(e: &'a Expr, f: &mut dyn FnMut(&'a Expr)) {
    f(e);
    match e {
        Expr::Bin(_, a, b) | Expr::Index(a, b) => { walk_expr(a, f); walk_expr(b, f) }
        Expr::Un(_, a) | Expr::Cast(a, _) | Expr::Member(a, _) => walk_expr(a, f),
        Expr::Tern(a, b, c) => { walk_expr(a, f); walk_expr(b, f); walk_expr(c, f) }
        Expr::Call(_, a) => for x in a { walk_expr(x, f) },
        _ => (),
    }
}
