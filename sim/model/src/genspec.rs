//! Specifications under test: a systematic matrix and seeded random specifications, all well typed by construction.
use crate::ast::*;
use crate::eval::ETy;
use crate::tape::Tape;
use crate::xf;
use std::collections::HashSet;

#[derive(Clone)]
pub struct Case { pub name: String, pub spec: Spec, pub text: String, /// expected to work with include_async
    pub async_ok: bool }

/// does decoding this type run to the end of its stream?
pub fn tail_types(spec: &Spec) -> HashSet<String> {
    let mut set: HashSet<String> = HashSet::new();
    fn xfs(inner: bool, x: &[Xf]) -> bool { let mut t = inner; for x in x { t = match xf::kind(&x.name) { Some(xf::Kind::Stream) | None => t, Some(k) if k.ends() => t && x.cond.is_some(), _ => true }; } t }
    fn ty(t: &Ty, s: &HashSet<String>) -> bool { match t { Ty::Arr(_, l) if **l == Len::Open => true, Ty::Arr(t, _) => ty(t, s), Ty::Ref(n, _) => s.contains(n), _ => false } }
    fn field(f: &Field, s: &HashSet<String>) -> bool {
        xfs(match &f.body { Body::Ty(t) => ty(t, s), Body::Cont(c) => c.len.is_none() && c.fields.iter().any(|f| field(f, s)), _ => false }, &f.xf)
    }
    for _ in 0..10 { for t in spec.types() { if field(&t.field, &set) { set.insert(t.name.clone()); } } }
    set
}
/// does the specification (or anything a type reaches) use an opaque transform
pub fn uses_opaque(spec: &Spec) -> bool { spec.decls.iter().any(|d| matches!(d, Decl::Ffi(n, _) if n == "gzip" || n == "base64")) }

fn eq_bit(f: &str, bit: u128) -> Expr { bin(Bop::Eq, bin(Bop::BitAnd, id(f), int(bit)), int(bit)) }
fn cont(fields: Vec<Field>) -> Body { Body::Cont(Cont { len: None, tagged: false, fields }) }
fn contl(len: Expr, fields: Vec<Field>) -> Body { Body::Cont(Cont { len: Some(len), tagged: false, fields }) }
fn tagged(fields: Vec<Field>) -> Body { Body::Cont(Cont { len: None, tagged: true, fields }) }
fn td(name: &str, body: Body) -> Decl { Decl::Type(TypeDecl { name: name.into(), args: vec![], field: Field::new("", body) }) }
fn tda(name: &str, args: Vec<(&str, Ty)>, body: Body) -> Decl { Decl::Type(TypeDecl { name: name.into(), args: args.into_iter().map(|(n, t)| Arg { name: n.into(), ty: t, default: None }).collect(), field: Field::new("", body) }) }
fn ffi(n: &str, k: &str) -> Decl { Decl::Ffi(n.into(), k.into()) }
fn x(n: &str, args: Vec<Expr>) -> Xf { Xf { name: n.into(), args, cond: None } }
fn refa(n: &str, a: Vec<Expr>) -> Ty { Ty::Ref(n.into(), a) }

/// every leaf type in every context
pub fn matrix() -> Vec<Case> {
    let mut leaves: Vec<(String, Vec<Decl>, Ty)> = vec![];
    for sc in ALL_SC { leaves.push((sc.name().into(), vec![], s(sc))); if sc.size() > 1 { leaves.push((format!("{}le", sc.name()), vec![], le(sc))); } }
    leaves.push(("f32".into(), vec![], Ty::F32));
    leaves.push(("f64".into(), vec![], Ty::F64));
    leaves.push(("bool".into(), vec![], Ty::Bool));
    for (i, (sc, e, d)) in [(Sc::U8, false, true), (Sc::U16, true, false), (Sc::I8, false, false), (Sc::I32, true, true), (Sc::U64, false, true), (Sc::I64, false, false), (Sc::U32, false, false), (Sc::I16, false, true)].into_iter().enumerate() {
        let n = format!("En{}", i);
        let rep = Scal { sc, le: e };
        let mut items = vec![("Aa".to_string(), EItem::Expr(int(0))), ("Bb".into(), EItem::Next), ("Cc".into(), EItem::Expr(int(17))), ("Dd".into(), EItem::Next), ("Ee".into(), EItem::Next)];
        if sc.signed() { items.push(("Ff".into(), EItem::Expr(un(Uop::Neg, int(5))))); items.push(("Gg".into(), EItem::Next)); }
        else if sc.size() > 1 { items.push(("Ff".into(), EItem::Expr(bin(Bop::Add, int(0x0102), int(1))))); }
        if d { items.push(("Zz".into(), EItem::Default)); }
        leaves.push((format!("enum{}", i), vec![td(&n, Body::Enum(EnumD { rep, items }))], rf(&n)));
    }
    for (i, (sc, e)) in [(Sc::U8, false), (Sc::U16, true), (Sc::U32, false), (Sc::U64, true), (Sc::U128, false)].into_iter().enumerate() {
        let n = format!("Bf{}", i);
        let items = vec![("Aa".to_string(), Some(int(1))), ("Bb".into(), None), ("Cc".into(), Some(int(0x10))), ("Dd".into(), None), ("Ee".into(), None)];
        leaves.push((format!("bits{}", i), vec![td(&n, Body::Bits(BitsD { rep: Scal { sc, le: e }, items }))], rf(&n)));
    }
    leaves.push(("utf8n".into(), vec![], refa("utf8", vec![int(5)])));
    leaves.push(("utf8z".into(), vec![], rf("utf8")));
    leaves.push(("utf16n".into(), vec![], refa("utf16", vec![int(3)])));
    for v in ["v8", "v16", "v32", "v64", "v128"] { leaves.push((v.into(), vec![], rf(v))); }
    leaves.push(("u24".into(), vec![ffi("u24", "type")], rf("u24")));
    leaves.push(("newt".into(), vec![td("Nt", Body::Ty(le(Sc::U16)))], rf("Nt")));
    leaves.push(("newarr".into(), vec![td("Na", Body::Ty(arr(s(Sc::U16), Len::Fixed(int(2)))))], rf("Na")));
    leaves.push(("strct".into(), vec![td("St", cont(vec![Field::ty("p", s(Sc::U8)), Field::ty("q", le(Sc::I16)), Field::ty("r", Ty::Bool)]))], rf("St")));
    leaves.push(("strctarg".into(), vec![tda("Sa", vec![("k", s(Sc::U8)), ("w", s(Sc::U32))], cont(vec![Field::ty("p", s(Sc::U8)), Field::ty("q", arr(s(Sc::U8), Len::Fixed(id("k")))), Field::ty("r", s(Sc::U32)).cond(bin(Bop::Gt, id("w"), int(2)))]))], refa("Sa", vec![int(2), ints(3, Sc::U32)])));
    leaves.push(("tagt".into(), vec![tda("Tg", vec![("k", s(Sc::U8))], tagged(vec![
        Field::ty("One", s(Sc::U32)).cond(bin(Bop::Eq, id("k"), int(1))),
        Field::new("Two", cont(vec![Field::ty("p", s(Sc::U8)), Field::ty("q", le(Sc::U16)), Field::pad(int(1))])).cond(bin(Bop::Eq, id("k"), int(2))),
        Field::ty("Rest", arr(s(Sc::U8), Len::Fixed(int(3))))]))], refa("Tg", vec![int(2)])));
    let mut out = vec![];
    for (name, decls, l) in leaves {
        let vararg = name == "utf8z";
        // an element that may be empty at the end of the stream: the count alone decides how much work there is
        let lt = if vararg { Sc::U8 } else { Sc::U16 };
        let mut spec = Spec { decls };
        let d = &mut spec.decls;
        let a = |t: &Ty, n: Len| arr(t.clone(), n);
        d.push(td("Solo", Body::Ty(l.clone())));
        d.push(td("Fields", cont(vec![Field::ty("a", s(Sc::U8)), Field::ty("b", l.clone()), Field::ty("c", l.clone()), Field::ty("z", s(Sc::U16))])));
        d.push(td("Arrs", cont(vec![Field::ty("fx", a(&l, Len::Fixed(int(3)))), Field::ty("n", s(Sc::U8)), Field::ty("ct", a(&l, Len::Fixed(id("n")))),
            Field::ty("m", if vararg { s(Sc::U8) } else { le(Sc::U16) }), Field::ty("nest", arr(a(&l, Len::Fixed(int(2))), Len::Fixed(id("m")))), Field::ty("z", s(Sc::U8))])));
        d.push(td("Conds", cont(vec![Field::ty("f", s(Sc::U8)), Field::ty("a", l.clone()).cond(eq_bit("f", 1)), Field::ty("b", a(&l, Len::Fixed(int(2)))).cond(eq_bit("f", 2)), Field::ty("z", s(Sc::U8))])));
        d.push(td("Nested", cont(vec![Field::ty("f", s(Sc::U8)), Field::new("g", cont(vec![Field::ty("a", l.clone()), Field::new("h", cont(vec![Field::ty("b", a(&l, Len::Fixed(int(2)))), Field::ty("b2", s(Sc::U8))]))])),
            Field::ty("z", s(Sc::U8))])));
        d.push(td("OptNest", cont(vec![Field::ty("f", s(Sc::U8)), Field::new("g", cont(vec![Field::ty("a", l.clone()), Field::ty("k", s(Sc::U8)), Field::ty("b", a(&l, Len::Fixed(id("k"))))])).cond(eq_bit("f", 1)), Field::ty("z", s(Sc::U8))])));
        d.push(td("OpenArr", Body::Ty(a(&l, Len::Open))));
        d.push(td("Boxed", cont(vec![Field::ty("n", s(Sc::U16)), Field::new("body", contl(id("n"), vec![Field::ty("a", l.clone()), Field::ty("o", a(&l, Len::Open))])), Field::ty("z", s(Sc::U8))])));
        if !vararg {
            d.push(td("Term1", cont(vec![Field::ty("t", a(&l, Len::Term(Expr::Str(vec![0xEE])))), Field::ty("z", s(Sc::U8))])));
            d.push(td("Term2", cont(vec![Field::ty("t", a(&l, Len::Term(Expr::Str(vec![0x0d, 0x0a])))), Field::ty("z", s(Sc::U8))])));
            d.push(td("Term5", Body::Ty(a(&l, Len::Term(Expr::Str(b"\"<>\\\0".to_vec()))))));
        }
        d.push(tda("Tagged", vec![("k", s(Sc::U8))], tagged(vec![Field::ty("V0", l.clone()).cond(bin(Bop::Eq, id("k"), int(0))),
            Field::ty("V1", a(&l, Len::Fixed(int(2)))).cond(bin(Bop::Eq, id("k"), int(1))),
            Field::new("V2", cont(vec![Field::ty("a", l.clone()), Field::ty("n", s(Sc::U8)), Field::ty("b", a(&l, Len::Fixed(id("n"))))])).cond(bin(Bop::Eq, id("k"), int(2)))])));
        d.push(td("UseTag", cont(vec![Field::ty("k", s(Sc::U8)), Field::ty("v", refa("Tagged", vec![id("k")])), Field::ty("z", s(Sc::U8))])));
        d.push(tda("Args", vec![("n", s(Sc::U8)), ("on", Ty::Bool)], cont(vec![Field::ty("a", a(&l, Len::Fixed(id("n")))), Field::ty("b", l.clone()).cond(id("on"))])));
        d.push(td("UseArgs", cont(vec![Field::ty("n", s(Sc::U8)), Field::ty("v", refa("Args", vec![id("n"), bin(Bop::Gt, id("n"), int(1))])), Field::ty("w", arr(refa("Args", vec![int(1), Expr::Bool(false)]), Len::Fixed(int(2)))), Field::ty("z", s(Sc::U8))])));
        d.push(td("Counted", cont(vec![Field::ty("n", s(lt)).calc(cast(call("len", vec![id("d")]), lt)), Field::ty("d", a(&l, Len::Fixed(id("n")))), Field::ty("z", s(Sc::U8))])));
        d.push(td("BLen", cont(vec![Field::ty("n", le(Sc::U32)).calc(cast(call("blen", vec![id("body")]), Sc::U32)), Field::ty("y", s(Sc::U8)), Field::new("body", contl(id("n"), vec![Field::ty("a", l.clone()), Field::ty("o", a(&l, Len::Open))])), Field::ty("z", s(Sc::U8))])));
        spec.decls.insert(0, ffi("xorx", "transform"));
        spec.decls.insert(0, ffi("framex", "transform"));
        spec.decls.insert(0, ffi("revx", "transform"));
        let d = &mut spec.decls;
        d.push(td("Xf", cont(vec![Field::ty("n", s(Sc::U8)), Field::new("body", contl(id("n"), vec![Field::ty("a", l.clone()).xf(x("xorx", vec![int(9)])), Field::ty("o", a(&l, Len::Open)).xf(x("revx", vec![])).xf(x("xorx", vec![id("n")]))])), Field::ty("z", s(Sc::U8))])));
        d.push(td("XfTail", cont(vec![Field::ty("n", s(Sc::U8)), Field::ty("o", a(&l, Len::Open)).xf(x("xorx", vec![int(3)])).xf(x("framex", vec![]))])));
        d.push(Decl::Type(TypeDecl { name: "XfTop".into(), args: vec![], field: Field::ty("", a(&l, Len::Open)).xf(x("xorx", vec![int(77)])).xf(x("revx", vec![])) }));
        out.push(case(&format!("mx_{}", name), spec));
    }
    out
}
pub fn case(name: &str, mut spec: Spec) -> Case {
    imports(&mut spec);
    for d in &mut spec.decls { if let Decl::Type(t) = d { t.field.name = t.name.clone() } }
    let text = spec.print();
    let async_ok = !uses_opaque(&spec);
    Case { name: name.into(), spec, text, async_ok }
}
/// adds the declarations of foreign items the specification uses
fn imports(spec: &mut Spec) {
    let mut need: Vec<(&'static str, &'static str)> = vec![];
    let mut add = |n: &str| {
        let k = match n { "sum" | "bits" | "pad" | "mixf" | "opt3" | "odd" => "function", "u24" | "utf8" | "utf16" | "v8" | "v16" | "v32" | "v64" | "v128" => "type", n if xf::kind(n).is_some() => "transform", _ => return };
        let n: &'static str = ["sum", "bits", "pad", "mixf", "opt3", "odd", "u24", "utf8", "utf16", "v8", "v16", "v32", "v64", "v128", "xorx", "rotx", "nibx", "revx", "framex", "gzip", "base64"].into_iter().find(|x| *x == n).unwrap();
        if !need.contains(&(n, k)) { need.push((n, k)) }
    };
    fn tys<'b>(t: &'b Ty, g: &mut dyn FnMut(&'b str)) { match t { Ty::Arr(t, _) => tys(t, g), Ty::Ref(n, _) => g(n), _ => () } }
    fn flds<'b>(f: &'b Field, g: &mut dyn FnMut(&'b str)) {
        match &f.body { Body::Ty(t) => tys(t, g), Body::Cont(c) => for x in &c.fields { flds(x, g) }, _ => () }
        for x in &f.xf { g(&x.name) }
    }
    for t in spec.types() {
        flds(&t.field, &mut |n| add(n));
        walk_field(&t.field, &mut |e, _| walk_expr(e, &mut |x| { if let Expr::Call(n, _) = x { add(n) } if let Expr::Cast(_, t) = x { tys(t, &mut |n| add(n)) } }));
        for a in &t.args { tys(&a.ty, &mut |n| add(n)) }
    }
    for (n, k) in need { if spec.ffi(n).is_none() { spec.decls.insert(0, Decl::Ffi(n.into(), k.into())) } }
}

// ------------------------------------------------------------------ random specifications
#[derive(Clone, PartialEq, Debug)]
enum K { Int(Sc), V(Sc), Bool, En(String), Bi(String), /// array of integers, with this many elements at least
    Arr(Sc, u64), Str, Other }
#[derive(Clone)]
struct Sym { name: String, k: K, opt: bool, calc: bool }
#[derive(Clone)]
struct TI { name: String, args: Vec<Arg>, min: usize, tail: bool, k: K, tagvals: Option<(String, Vec<u128>)>,
    }
const AWKWARD: [&str; 24] = ["reader", "writer", "raw", "size", "r", "t", "x", "scratch", "t_count", "value", "buf", "r_0", "r_1", "r_2", "r_3", "r_4", "r_7", "_pad0", "_pad1", "_pad2", "Vec", "String", "data", "Result"];
struct SG<'a> { t: &'a mut Tape, spec: Spec, types: Vec<TI>, n: usize, /// small ones, fit for lengths
    consts: Vec<(String, Sc)>, /// any scalar constant
    kc: Vec<(String, Sc)>, kb: Vec<String>, p: Profile, awkward: Vec<&'static str> }
#[derive(Clone, Copy)]
pub struct Profile { pub calc: u64, pub cond: u64, pub xf: u64, pub tagged: u64, pub opaque: bool, pub expr_depth: u32, pub len: u64 }
pub const PROFILES: [(&str, Profile); 5] = [
    ("mixed", Profile { calc: 3, cond: 3, xf: 2, tagged: 3, opaque: false, expr_depth: 2, len: 3 }),
    ("calc", Profile { calc: 10, cond: 3, xf: 1, tagged: 2, opaque: false, expr_depth: 3, len: 5 }),
    ("xform", Profile { calc: 3, cond: 2, xf: 10, tagged: 2, opaque: false, expr_depth: 1, len: 4 }),
    ("expr", Profile { calc: 6, cond: 8, xf: 0, tagged: 3, opaque: false, expr_depth: 4, len: 2 }),
    ("opaque", Profile { calc: 3, cond: 2, xf: 10, tagged: 2, opaque: true, expr_depth: 1, len: 4 }),
];
pub fn random(seed: u64, name: &str, p: Profile) -> Case {
    // lengths of compressed data must not decide anything: they are the compressor's business
    for k in 0.. {
        let mut t = Tape::seeded(if k == 0 { seed } else { crate::tape::mix(seed, 1000 + k) });
        let mut g = SG { t: &mut t, spec: Spec::default(), types: vec![], n: 0, consts: vec![], kc: vec![], kb: vec![], p, awkward: AWKWARD.to_vec() };
        g.go();
        let spec = g.spec;
        if crate::opq::fuzzy(&spec).is_some() { return case(name, spec); }
    }
    unreachable!()
}
impl<'a> SG<'a> {
    fn name(&mut self, p: &str) -> String {
        self.n += 1;
        // names that generated code could be using itself
        if p.as_bytes()[0].is_ascii_lowercase() && self.t.chance(1, 8) && !self.awkward.is_empty() { let i = self.t.us(self.awkward.len()); return self.awkward.swap_remove(i).into() } format!("{}{}{}", p, if p.len() == 1 { "_" } else { "" }, self.n) }
    fn go(&mut self) {
        for _ in 0..self.t.us(3) {
            let n = self.name("K");
            let sc = *self.t.pick(&[Sc::U8, Sc::U16, Sc::U32, Sc::U64]);
            let v = match self.t.below(3) { 0 => int(self.t.below(9) as u128), 1 => bin(Bop::Add, int(self.t.below(5) as u128), int(3)), _ => bin(Bop::Sub, bin(Bop::Mul, int(2 + self.t.below(4) as u128), int(5)), int(1 + self.t.below(3) as u128)) };
            self.spec.decls.push(Decl::Const(ConstDecl { name: n.clone(), ty: s(sc), val: v }));
            self.consts.push((n.clone(), sc));
            self.kc.push((n, sc));
        }
        for _ in 0..self.t.us(4) {
            let n = self.name("K");
            if self.t.chance(1, 5) {
                let e = self.cbool(2);
                self.spec.decls.push(Decl::Const(ConstDecl { name: n.clone(), ty: Ty::Bool, val: e }));
                self.kb.push(n);
            } else {
                let sc = *self.t.pick(&ALL_SC);
                let e = self.cexpr(sc, 3, false);
                let ty = if self.t.chance(1, 5) { le(sc) } else { s(sc) };
                self.spec.decls.push(Decl::Const(ConstDecl { name: n.clone(), ty, val: e }));
                self.kc.push((n, sc));
            }
        }
        for _ in 0..1 + self.t.us(2) { self.enum_() }
        for _ in 0..self.t.us(3) { self.bits_() }
        for _ in 0..self.t.us(2) {
            let n = self.name("Nt");
            let sc = *self.t.pick(&ALL_SC);
            let (t, min) = match self.t.below(3) { 0 => (s(sc), sc.size()), 1 => (arr(le(sc), Len::Fixed(int(2))), 2 * sc.size()), _ => (arr(s(Sc::U8), Len::Term(Expr::Str(vec![0]))), 0) };
            self.spec.decls.push(td(&n, Body::Ty(t)));
            self.types.push(TI { name: n, args: vec![], min, tail: false, k: K::Other, tagvals: None });
        }
        let st = 2 + self.t.us(2);
        for _ in 0..st {
            if self.t.chance(self.p.tagged, 8) { self.tagged_() }
            self.struct_(false);
        }
        self.struct_(true);
        if self.t.chance(1, 3) { self.struct_(true); }
    }
    /// a constant expression of exactly this type, every part of which has a value; `typed`: the type shows without context
    fn cexpr(&mut self, sc: Sc, d: u32, typed: bool) -> Expr {
        if d > 0 && self.t.chance(3, 4) {
            let e = match self.t.below(16) {
                0 => { let a = self.cexpr(sc, d - 1, typed); let b = self.cexpr(sc, d - 1, typed); bin(Bop::BitAnd, a, b) }
                1 => { let a = self.cexpr(sc, d - 1, typed); let b = self.cexpr(sc, d - 1, typed); bin(Bop::BitOr, a, b) }
                2 => { let a = self.cexpr(sc, d - 1, typed); let b = self.cexpr(sc, d - 1, typed); bin(Bop::BitXor, a, b) }
                3 => { let a = self.cexpr(sc, d - 1, typed); let b = self.cexpr(sc, d - 1, typed); bin(Bop::Add, a, b) }
                4 => { let a = self.cexpr(sc, d - 1, typed); let b = self.cexpr(sc, d - 1, typed); bin(Bop::Sub, a, b) }
                5 => { let a = self.cexpr(sc, d - 1, typed); let b = self.cexpr(sc, d - 1, typed); bin(Bop::Mul, a, b) }
                6 => { let a = self.cexpr(sc, d - 1, typed); let b = self.cexpr(sc, d - 1, typed); bin(Bop::Div, a, b) }
                7 => { let a = self.cexpr(sc, d - 1, typed); let b = self.cexpr(sc, d - 1, typed); bin(Bop::Mod, a, b) }
                8 => { let a = self.cexpr(sc, d - 1, typed); bin(Bop::Shl, a, ints(self.t.below(sc.bits() as u64) as u128, sc)) }
                9 => { let a = self.cexpr(sc, d - 1, typed); bin(if sc.signed() { Bop::ShrS } else { Bop::Shr }, a, ints(self.t.below(sc.bits() as u64) as u128, sc)) }
                10 if sc.signed() => un(Uop::Neg, self.cexpr(sc, d - 1, typed)),
                10 | 11 => un(Uop::BitNot, self.cexpr(sc, d - 1, typed)),
                12 | 13 => {
                    let en: Vec<String> = self.types.iter().filter_map(|t| if let K::En(n) = &t.k { Some(n.clone()) } else { None }).collect();
                    let inner = if !en.is_empty() && self.t.chance(1, 3) {
                        let n = self.t.pick(&en).clone();
                        let rep = match self.spec.type_(&n).map(|t| &t.field.body) { Some(Body::Enum(e)) => e.rep.sc, _ => unreachable!() };
                        let v = self.variant(&n);
                        cast(v, rep)
                    } else { let o = *self.t.pick(&ALL_SC); self.cexpr(o, d - 1, true) };
                    cast(inner, sc)
                }
                _ => { let c = self.cbool(d - 1); let a = self.cexpr(sc, d - 1, typed); let b = self.cexpr(sc, d - 1, typed); Expr::Tern(Box::new(c), Box::new(a), Box::new(b)) }
            };
            if crate::eval::eval(&e, Some(&ETy::Int(sc)), &crate::eval::NoEnv(&self.spec)).is_ok() { return e; }
        }
        let same: Vec<String> = self.kc.iter().filter(|k| k.1 == sc).map(|k| k.0.clone()).collect();
        if !same.is_empty() && self.t.chance(1, 3) { return id(&self.t.pick(&same).clone()); }
        let v = match self.t.below(5) { 0 => *self.t.pick(&[sc.max_u(), sc.max_u() - 1, sc.max_u() >> 1, (sc.max_u() >> 1) + 1]), 1 => (1u128 << self.t.below(sc.bits() as u64)) & sc.max_u(), _ => self.t.below(40) as u128 };
        if typed || self.t.chance(1, 3) { ints(v, sc) } else { int(v) }
    }
    fn cbool(&mut self, d: u32) -> Expr {
        if !self.kb.is_empty() && self.t.chance(1, 5) { return id(&self.t.pick(&self.kb.clone()).clone()); }
        if d == 0 { return Expr::Bool(self.t.chance(1, 2)); }
        match self.t.below(8) {
            0 => un(Uop::Not, self.cbool(d - 1)),
            1 => { let a = self.cbool(d - 1); let b = self.cbool(d - 1); bin(Bop::Or, a, b) }
            2 => { let a = self.cbool(d - 1); let b = self.cbool(d - 1); bin(Bop::And, a, b) }
            _ => {
                let sc = *self.t.pick(&ALL_SC);
                let op = *self.t.pick(&[Bop::Lt, Bop::Gt, Bop::Le, Bop::Ge, Bop::Eq, Bop::Ne]);
                let a = self.cexpr(sc, d - 1, true);
                let b = if self.t.chance(1, 3) { a.clone() } else { self.cexpr(sc, d - 1, true) };
                bin(op, a, b)
            }
        }
    }
    fn cval(&self, e: &Expr, sc: Sc) -> u128 { crate::eval::eval(e, Some(&ETy::Int(sc)), &crate::eval::NoEnv(&self.spec)).ok().and_then(|v| crate::eval::raw(&v)).unwrap_or(0) & sc.mask() }
    /// an enumeration or flag word whose values come from arbitrary constant expressions
    fn calculated(&mut self, flags: bool) {
        let n = self.name(if flags { "Bi" } else { "En" });
        let sc = *self.t.pick(&ALL_SC);
        let le = sc.size() > 1 && self.t.chance(1, 3);
        let mut vals: Vec<u128> = vec![];
        let mut items = vec![];
        let mut base = 0u128;
        let mut k = 0u128;
        for i in 0..3 + self.t.us(4) {
            let nm = format!("{}{}", if flags { "Fl" } else { "V" }, i);
            // the next value must exist in the type
            let next = if flags { if k < sc.bits() as u128 { Some((base << k) & sc.mask()) } else { None } } else if sc.signed() { let x = sc.sext(base).wrapping_add(k as i128); if x > sc.sext(base) && x <= sc.max_u() as i128 { Some(x as u128 & sc.mask()) } else { None } } else { base.checked_add(k).filter(|x| *x <= sc.max_u()) };
            match next { Some(v) if i > 0 && self.t.chance(1, 3) && (flags || !vals.contains(&v)) => { vals.push(v); items.push((nm, None)); k += 1; continue } _ => () }
            for _ in 0..6 {
                let e = self.cexpr(sc, 3, false);
                let v = self.cval(&e, sc);
                if !flags && vals.contains(&v) { continue }
                vals.push(v);
                base = v; k = 1;
                items.push((nm, Some(e)));
                break;
            }
        }
        if items.is_empty() { items.push(("V0".into(), Some(int(1)))); }
        let rep = Scal { sc, le };
        if flags {
            self.spec.decls.push(td(&n, Body::Bits(BitsD { rep, items })));
            self.types.push(TI { name: n.clone(), args: vec![], min: sc.size(), tail: false, k: K::Bi(n), tagvals: None });
        } else {
            let mut items: Vec<(String, EItem)> = items.into_iter().map(|(n, e)| (n, e.map(EItem::Expr).unwrap_or(EItem::Next))).collect();
            if self.t.chance(1, 3) { items.push(("Other".into(), EItem::Default)); }
            self.spec.decls.push(td(&n, Body::Enum(EnumD { rep, items })));
            self.types.push(TI { name: n.clone(), args: vec![], min: sc.size(), tail: false, k: K::En(n), tagvals: None });
        }
    }
    fn enum_(&mut self) {
        if self.t.chance(1, 2) { return self.calculated(false); }
        let n = self.name("En");
        let sc = *self.t.pick(&ALL_SC);
        let le = sc.size() > 1 && self.t.chance(1, 3);
        let mut items = vec![];
        let mut base = self.t.below(4) as u128;
        let cnt = 2 + self.t.us(4);
        let mut next = base;
        for i in 0..cnt {
            let nm = format!("V{}", i);
            if i == 0 || self.t.chance(1, 3) {
                if i > 0 { base = next + self.t.below(5) as u128; }
                let e = match self.t.below(4) { 0 if base > 1 => bin(Bop::Add, int(base - 1), int(1)), 1 if base < 3 => bin(Bop::Shl, int(base), int(0)), _ => int(base) };
                items.push((nm, EItem::Expr(e)));
                next = base + 1;
            } else { items.push((nm, EItem::Next)); next += 1; }
        }
        if self.t.chance(1, 3) { items.push(("Other".into(), EItem::Default)); }
        self.spec.decls.push(td(&n, Body::Enum(EnumD { rep: Scal { sc, le }, items })));
        self.types.push(TI { name: n.clone(), args: vec![], min: sc.size(), tail: false, k: K::En(n), tagvals: None });
    }
    fn bits_(&mut self) {
        if self.t.chance(1, 2) { return self.calculated(true); }
        let n = self.name("Bi");
        let sc = *self.t.pick(&[Sc::U8, Sc::U16, Sc::U32, Sc::U64]);
        let le = sc.size() > 1 && self.t.chance(1, 3);
        let mut items = vec![];
        let mut top = 0u32;
        for i in 0..2 + self.t.us(3) {
            if i == 0 || self.t.chance(1, 3) { if i > 0 { top += 1 + self.t.below(2) as u32; } items.push((format!("Fl{}", i), Some(if self.t.chance(1, 2) { int(1 << top) } else { bin(Bop::Shl, int(1), int(top as u128)) }))); }
            else { top += 1; items.push((format!("Fl{}", i), None)); }
        }
        self.spec.decls.push(td(&n, Body::Bits(BitsD { rep: Scal { sc, le }, items })));
        self.types.push(TI { name: n.clone(), args: vec![], min: sc.size(), tail: false, k: K::Bi(n), tagvals: None });
    }
    fn tagged_(&mut self) {
        let n = self.name("Tg");
        // selected by an integer or an enumeration
        let en: Vec<String> = self.types.iter().filter_map(|t| if let K::En(n) = &t.k { Some(n.clone()) } else { None }).collect();
        let mut args = vec![];
        let mut vals = vec![];
        let mut conds = vec![];
        let cnt = 2 + self.t.us(3);
        if !en.is_empty() && self.t.chance(1, 2) {
            let e = self.t.pick(&en).clone();
            args.push(Arg { name: "tag".into(), ty: rf(&e), default: None });
            let vs: Vec<String> = crate::eval::enum_values(&self.spec, &e).into_iter().filter(|x| x.1.is_some()).map(|x| x.0).collect();
            for v in vs.iter().take(cnt) { conds.push(bin(Bop::Eq, id("tag"), Expr::Variant(e.clone(), v.clone()))); }
        } else {
            let sc = *self.t.pick(&[Sc::U8, Sc::U16, Sc::I32, Sc::U64]);
            args.push(Arg { name: "tag".into(), ty: s(sc), default: None });
            for i in 0..cnt { let v = i as u128 * 2 + self.t.below(2) as u128; vals.push(v); conds.push(match self.t.below(4) { 0 => bin(Bop::And, bin(Bop::Ge, id("tag"), int(v)), bin(Bop::Le, id("tag"), int(v))), _ => bin(Bop::Eq, id("tag"), int(v)) }); }
        }
        let extra = self.t.chance(1, 3);
        if extra { args.push(Arg { name: "cnt".into(), ty: s(Sc::U8), default: None }); }
        let dflt = self.t.chance(1, 3);
        let mut alts = vec![];
        let nc = conds.len();
        let mut min = usize::MAX;
        let argsyms: Vec<Sym> = args.iter().map(|a| Sym { name: a.name.clone(), k: self.kind_of(&a.ty), opt: false, calc: false }).collect();
        for (i, c) in conds.into_iter().enumerate() {
            let last = i + 1 == nc && dflt;
            let nm = format!("Al{}", i);
            let mut syms = argsyms.clone();
            if self.t.chance(1, 2) {
                let k = 1 + self.t.us(3);
                let (fs, m, _) = self.fields(&mut syms, k, 1, false, false);
                min = min.min(m);
                let mut f = Field::new(&nm, cont(fs));
                if !last { f.cond = Some(c) }
                alts.push(f);
            } else {
                let (t, m, _) = self.leaf(&syms, false, false);
                min = min.min(m);
                let mut f = Field::ty(&nm, t);
                if !last { f.cond = Some(c) }
                alts.push(f);
            }
        }
        self.spec.decls.push(Decl::Type(TypeDecl { name: n.clone(), args: args.clone(), field: Field::new("", tagged(alts)) }));
        self.types.push(TI { name: n, args, min, tail: false, k: K::Other, tagvals: Some(("tag".into(), vals)) });
    }
    fn kind_of(&self, t: &Ty) -> K {
        match t {
            Ty::S(k) => K::Int(k.sc), Ty::Bool => K::Bool,
            Ty::Arr(e, l) => match &**e { Ty::S(k) => K::Arr(k.sc, match &**l { Len::Fixed(Expr::Int(n, _)) => *n as u64, _ => 0 }), _ => K::Other },
            Ty::Ref(n, _) => match self.types.iter().find(|t| t.name == *n) { Some(t) => t.k.clone(), None => match &**n { "utf8" | "utf16" => K::Str, n => crate::eval::vint_sc(n).map(K::V).unwrap_or(K::Other) } },
            _ => K::Other,
        }
    }
    fn struct_(&mut self, root: bool) {
        let n = self.name(if root { "Root" } else { "St" });
        let mut args = vec![];
        if !root && self.t.chance(1, 3) {
            for i in 0..1 + self.t.us(2) {
                let ty = match self.t.below(4) { 0 => Ty::Bool, 1 => s(Sc::U32), 2 => s(Sc::U16), _ => s(Sc::U8) };
                let _ = i; let name = self.name("a"); args.push(Arg { name, ty, default: None });
            }
            // the last ones may be left out
            for k in (0..args.len()).rev() {
                if !self.t.chance(1, 3) { break }
                args[k].default = Some(match &args[k].ty { Ty::S(s) => { let s = s.sc; if self.t.chance(1, 2) { int(self.t.below(6) as u128) } else { self.cexpr(s, 2, false) } } _ => self.cbool(2) });
            }
        }
        let mut syms: Vec<Sym> = args.iter().map(|a| Sym { name: a.name.clone(), k: self.kind_of(&a.ty), opt: false, calc: false }).collect();
        let cnt = if root { 4 + self.t.us(6) } else { 2 + self.t.us(4) };
        let tail_ok = root || self.t.chance(1, 6);
        let (fs, min, tail) = self.fields(&mut syms, cnt, 0, tail_ok, false);
        let mut f = Field::new("", cont(fs));
        // a declared total size now and then
        let _ = &mut f;
        self.spec.decls.push(Decl::Type(TypeDecl { name: n.clone(), args: args.clone(), field: f }));
        self.types.push(TI { name: n, args, min, tail, k: K::Other, tagvals: None });
    }
    /// fields of one container; `syms` gains the names visible to later fields
    fn fields(&mut self, syms: &mut Vec<Sym>, cnt: usize, depth: u32, tail_ok: bool, in_opt: bool) -> (Vec<Field>, usize, bool) {
        let mut fs: Vec<Field> = vec![];
        let mut min = 0;
        let mut tail = false;
        for i in 0..cnt {
            let last = i + 1 == cnt;
            let kind = self.t.weighted(&[10, if depth < 2 { 3 } else { 0 }, self.p.len, 2, if in_opt { self.p.calc / 3 } else { self.p.calc }, self.p.xf, 2]);
            match kind {
                1 => {
                    // nested region, possibly optional
                    let n = self.name("rg");
                    let opt = self.t.chance(self.p.cond, 8);
                    let c = if opt { Some(self.boolean(syms, self.p.expr_depth)) } else { None };
                    let k = 1 + self.t.us(3);
                    let mut s2 = syms.clone(); // names of an inner container are not visible outside
                    let (inner, m, _) = self.fields(&mut s2, k, depth + 1, false, in_opt || opt);
                    if !opt { min += m }
                    let mut f = Field::new(&n, cont(inner));
                    f.cond = c;
                    fs.push(f);
                }
                2 => { min += self.boxed(syms, &mut fs, depth, in_opt); }
                3 => { let e = self.length(syms); let e = if self.t.chance(1, 3) { call("pad", vec![int(1 << self.t.below(4)), e]) } else { e }; fs.push(Field::pad(e)); }
                4 => { min += self.computed(syms, &mut fs, in_opt); }
                5 => { min += self.transformed(syms, &mut fs, depth, last && tail_ok && depth == 0, &mut tail); }
                6 => {
                    // a user of a declared type with arguments or a tagged type
                    let c: Vec<TI> = self.types.iter().filter(|t| t.k == K::Other && (!t.tail || (last && tail_ok))).cloned().collect();
                    if c.is_empty() { continue; }
                    let ti = self.t.pick(&c).clone();
                    let n = self.name("u");
                    let mut a = vec![];
                    for arg in &ti.args {
                        if arg.default.is_some() && self.t.chance(1, 2) { break }
                        let k = self.kind_of(&arg.ty);
                        if let Some((tn, vals)) = &ti.tagvals { if *tn == arg.name {
                            // usually a field of the right kind just before it
                            let cand: Vec<Sym> = syms.iter().filter(|s| s.k == k && !s.opt && !s.calc).cloned().collect();
                            if !cand.is_empty() && self.t.chance(1, 2) { let s = self.t.pick(&cand).clone(); a.push(id(&s.name)); continue; }
                            let nn = self.name("k");
                            fs.push(Field::ty(&nn, arg.ty.clone()));
                            if let Ty::S(s) = &arg.ty { min += s.sc.size() }
                            syms.push(Sym { name: nn.clone(), k, opt: false, calc: false });
                            let _ = vals;
                            a.push(id(&nn));
                            continue;
                        } }
                        a.push(match k { K::Int(sc) if arg.name == "cnt" || sc == Sc::U8 => self.small(syms, sc), K::Int(sc) => self.small(syms, sc), K::Bool => self.boolean(syms, 1), K::En(n) => self.variant(&n), _ => Expr::Bool(true) });
                    }
                    let mut f = Field::ty(&n, refa(&ti.name, a));
                    if self.t.chance(1, 4) && !ti.tail && ti.min > 0 { let e = self.length(syms); if let Body::Ty(t) = &mut f.body { *t = arr(t.clone(), Len::Fixed(e)) } } else if self.t.chance(self.p.cond, 12) { f.cond = Some(self.boolean(syms, 1)) } else { min += ti.min }
                    tail |= ti.tail;
                    fs.push(f);
                }
                _ => {
                    let (t, m, tl) = self.leaf(syms, last && tail_ok, true);
                    let n = self.name("f");
                    let mut f = Field::ty(&n, t.clone());
                    if self.t.chance(self.p.cond, 16) { f.cond = Some(self.boolean(syms, self.p.expr_depth)) } else { min += m }
                    syms.push(Sym { name: n, k: self.kind_of(&t), opt: f.cond.is_some(), calc: false });
                    tail |= tl;
                    fs.push(f);
                }
            }
            if tail { break; }
        }
        if fs.is_empty() || fs.iter().all(|f| matches!(f.body, Body::Pad(_)) || matches!(f.body, Body::Cont(_))) { let n = self.name("f"); fs.insert(0, Field::ty(&n, s(Sc::U8))); min += 1; syms.push(Sym { name: n, k: K::Int(Sc::U8), opt: false, calc: false }); }
        (fs, min, tail)
    }
    /// several regions whose lengths are announced ahead of all of them
    fn regions(&mut self, syms: &mut Vec<Sym>, fs: &mut Vec<Field>, depth: u32) -> usize {
        let mut min = 0;
        let mut between = |g: &mut Self, syms: &mut Vec<Sym>, fs: &mut Vec<Field>| if g.t.chance(1, 3) { let m = g.name("f"); fs.push(Field::ty(&m, le(Sc::U16))); min += 2; syms.push(Sym { name: m, k: K::Int(Sc::U16), opt: false, calc: false }); };
        let k = 2 + self.t.us(2);
        let names: Vec<(String, String)> = (0..k).map(|_| (self.name("n"), self.name("b"))).collect();
        let at = if self.t.chance(1, 2) { self.t.us(k + 1) } else { usize::MAX };
        let mut sizes = 0;
        for i in 0..=k {
            if i == at {
                let n = self.name("n");
                let e = (1..k).fold(call("blen", vec![id(&names[0].1)]), |e, i| bin(Bop::Add, e, call("blen", vec![id(&names[i].1)])));
                fs.push(Field::ty(&n, le(Sc::U32)).calc(cast(e, Sc::U32)));
                syms.push(Sym { name: n, k: K::Int(Sc::U32), opt: false, calc: true });
                sizes += 4;
                between(self, syms, fs);
            }
            if i == k { break }
            let sc = *self.t.pick(&[Sc::U8, Sc::U16, Sc::U64]);
            let e = call("blen", vec![id(&names[i].1)]);
            fs.push(Field::ty(&names[i].0, s(sc)).calc(if sc == Sc::U64 { e } else { cast(e, sc) }));
            syms.push(Sym { name: names[i].0.clone(), k: K::Int(sc), opt: false, calc: true });
            sizes += sc.size();
            between(self, syms, fs);
        }
        let mut order: Vec<usize> = (0..k).collect();
        for i in (1..k).rev() { let j = self.t.us(i + 1); order.swap(i, j) }
        for i in order {
            let mut inner = vec![];
            let mut s2: Vec<Sym> = syms.iter().filter(|s| !s.calc).cloned().collect();
            if self.t.chance(1, 2) { let c = 1 + self.t.us(2); inner = self.fields(&mut s2, c, depth + 1, false, true).0; }
            let o = self.name("o");
            inner.push(Field::ty(&o, arr(s(Sc::U8), Len::Open)));
            fs.push(Field::new(&names[i].1, contl(id(&names[i].0), inner)));
            between(self, syms, fs);
        }
        min + sizes
    }
    /// a region with a declared length
    fn boxed(&mut self, syms: &mut Vec<Sym>, fs: &mut Vec<Field>, depth: u32, in_opt: bool) -> usize {
        if !in_opt && self.p.calc > 0 && self.t.chance(1, 5) { return self.regions(syms, fs, depth) }
        let b = self.name("b");
        let n = self.name("n");
        let sc = *self.t.pick(&[Sc::U8, Sc::U16, Sc::U32, Sc::U64]);
        let lt = if self.t.chance(1, 3) { le(sc) } else { s(sc) };
        let mode = self.t.weighted(&[self.p.calc, 2, 1]);
        let mut min = 0;
        let lenx = match mode {
            0 if !in_opt => {
                let e = call("blen", vec![id(&b)]);
                let e = if sc == Sc::U64 { e } else { cast(e, sc) };
                // an affine length now and then
                let add = if self.t.chance(1, 4) && sc.size() > 1 { 1 + self.t.below(5) as u128 } else { 0 };
                let e = if add > 0 { bin(Bop::Add, e, ints(add, sc)) } else { e };
                let e = match self.t.below(8) {
                    0 => un(Uop::BitNot, un(Uop::BitNot, e)),
                    1 => { let c = self.boolean(syms, 1); let f = if self.t.chance(1, 2) { bin(Bop::Add, e.clone(), ints(0, sc)) } else { e.clone() }; Expr::Tern(Box::new(c), Box::new(e), Box::new(f)) }
                    _ => e,
                };
                fs.push(Field::ty(&n, lt).calc(e));
                min += sc.size();
                syms.push(Sym { name: n.clone(), k: K::Int(sc), opt: false, calc: true });
                if add > 0 { bin(Bop::Sub, id(&n), int(add)) } else { id(&n) }
            }
            2 => int(4 + self.t.below(12) as u128),
            _ => { fs.push(Field::ty(&n, lt)); min += sc.size(); syms.push(Sym { name: n.clone(), k: K::Int(sc), opt: false, calc: false }); id(&n) }
        };
        // a field between the length and its region
        if self.t.chance(1, 3) { let m = self.name("f"); fs.push(Field::ty(&m, le(Sc::U16))); min += 2; syms.push(Sym { name: m, k: K::Int(Sc::U16), opt: false, calc: false }); }
        let mut inner_syms: Vec<Sym> = syms.iter().filter(|s| s.name != n).cloned().collect();
        let outer_syms = inner_syms.clone();
        let k = self.t.us(3);
        let mut inner = vec![];
        if k > 0 && mode != 2 { let (i, _, _) = self.fields(&mut inner_syms, k, depth + 1, false, true); inner = i; }
        let o = self.name("o");
        let et = match self.t.below(6) { 0 => s(Sc::U16), 1 => Ty::Bool, 2 => { let c: Vec<TI> = self.types.iter().filter(|t| t.min > 0 && t.args.is_empty() && !t.tail).cloned().collect(); if c.is_empty() || mode == 2 { s(Sc::U8) } else { rf(&self.t.pick(&c).name) } } _ => s(Sc::U8) };
        let et = if mode == 2 { s(Sc::U8) } else { et };
        let mut of = Field::ty(&o, arr(et, Len::Open));
        if self.t.chance(self.p.xf, 14) && mode != 2 { self.chain(&mut of, &inner_syms, true) }
        inner.push(of);
        let mut f = Field::new(&b, contl(lenx, inner));
        if self.t.chance(self.p.xf, 30) { f.xf.push(self.xform(&outer_syms, true, false)); }
        fs.push(f);
        min
    }
    fn computed(&mut self, syms: &mut Vec<Sym>, fs: &mut Vec<Field>, _in_opt: bool) -> usize {
        let c = self.name("c");
        let sc = *self.t.pick(&[Sc::U8, Sc::U16, Sc::U32, Sc::U64, Sc::I32]);
        let t = if self.t.chance(1, 3) { le(sc) } else { s(sc) };
        let mut min = sc.size();
        let conv = |e: Expr| if sc == Sc::U64 { e } else { cast(e, sc) };
        match self.t.weighted(&[4, 2, 2, 2, 3]) {
            0 => {
                // count of a later array or string
                let d = self.name("d");
                let e = call("len", vec![id(&d)]);
                let (add, mul) = (if self.t.chance(1, 4) { self.t.below(4) as u128 } else { 0 }, 1);
                let _ = mul;
                let e = conv(if add > 0 { bin(Bop::Add, e, int(add)) } else { e });
                fs.push(Field::ty(&c, t).calc(e));
                let sz = if sc.signed() { cast(id(&c), Sc::U64) } else { id(&c) };
                let sz = if add > 0 { bin(Bop::Sub, sz, int(add)) } else { sz };
                if self.t.chance(1, 3) { fs.push(Field::pad(int(self.t.below(4) as u128))); }
                let dt = match self.t.below(5) { 0 => refa("utf8", vec![sz]), 1 => arr(le(Sc::U32), Len::Fixed(sz)), 2 => { let c: Vec<TI> = self.types.iter().filter(|t| t.min > 0 && t.args.is_empty() && !t.tail).cloned().collect(); if c.is_empty() { arr(s(Sc::U8), Len::Fixed(sz)) } else { arr(rf(&self.t.pick(&c).name), Len::Fixed(sz)) } } _ => arr(s(Sc::U8), Len::Fixed(sz)) };
                let k = self.kind_of(&dt);
                fs.push(Field::ty(&d, dt));
                syms.push(Sym { name: d, k, opt: false, calc: false });
            }
            1 => {
                let d = self.name("d");
                let asc = *self.t.pick(&[Sc::U8, Sc::U16, Sc::U32]);
                fs.push(Field::ty(&c, t).calc(conv(call("sum", vec![id(&d)]))));
                let n = 1 + self.t.below(4);
                fs.push(Field::ty(&d, arr(s(asc), Len::Fixed(int(n as u128)))));
                min += asc.size();
                syms.push(Sym { name: d, k: K::Arr(asc, n), opt: false, calc: false });
            }
            2 => { let v = self.t.below(200) as u128 & sc.max_u(); fs.push(Field::ty(&c, t).calc(int(v & 0x7f))); }
            3 => { let e = self.integer(syms, sc, self.p.expr_depth); fs.push(Field::ty(&c, t).calc(e)); }
            _ => {
                // a flag that a later optional field follows
                let en: Vec<Sym> = syms.iter().filter(|s| matches!(s.k, K::Int(_)) && !s.opt && !s.calc).cloned().collect();
                if en.is_empty() { fs.push(Field::ty(&c, t).calc(int(7))); } else {
                    let b = self.boolean(syms, self.p.expr_depth.min(2));
                    let e = Expr::Tern(Box::new(b), Box::new(int(self.t.below(100) as u128)), Box::new(int(self.t.below(100) as u128)));
                    fs.push(Field::ty(&c, t).calc(e));
                    let o = self.name("f");
                    fs.push(Field::ty(&o, s(Sc::U16)).cond(bin(Bop::Gt, id(&c), int(50))));
                    syms.push(Sym { name: o, k: K::Int(Sc::U16), opt: true, calc: false });
                }
            }
        }
        syms.push(Sym { name: c, k: K::Int(sc), opt: false, calc: true });
        min
    }
    fn xform(&mut self, syms: &[Sym], whole: bool, ends: bool) -> Xf {
        let mut names = vec!["xorx", "xorx", "rotx", "nibx"];
        if whole { names.extend(["revx", "framex", "framex"]); if self.p.opaque { names.extend(["gzip", "gzip", "base64"]) } }
        else if ends { names.push("framex"); if self.p.opaque { names.extend(["gzip", "gzip"]) } }
        let n = *self.t.pick(&names);
        let args = match n { "xorx" => vec![self.key(syms)], "rotx" if self.t.chance(1, 2) => vec![self.key(syms)], _ => vec![] };
        Xf { name: n.into(), args, cond: None }
    }
    fn key(&mut self, syms: &[Sym]) -> Expr {
        let c: Vec<Sym> = syms.iter().filter(|s| s.k == K::Int(Sc::U8) && !s.opt && !s.calc).cloned().collect();
        if !c.is_empty() && self.t.chance(1, 2) { id(&self.t.pick(&c).name) } else { int(self.t.below(256) as u128) }
    }
    fn chain(&mut self, f: &mut Field, syms: &[Sym], whole: bool) {
        for _ in 0..1 + self.t.us(3) { let mut x = self.xform(syms, whole, true); if self.t.chance(1, 3) { x.cond = Some(self.boolean(syms, 1)); } f.xf.push(x); }
    }
    fn transformed(&mut self, syms: &mut Vec<Sym>, fs: &mut Vec<Field>, depth: u32, tail_ok: bool, tail: &mut bool) -> usize {
        let n = self.name("x");
        if tail_ok && self.t.chance(1, 2) {
            let mut f = Field::ty(&n, arr(self.prim(), Len::Open));
            self.chain(&mut f, syms, true);
            *tail = true;
            fs.push(f);
            return 0;
        }
        match self.t.below(3) {
            0 => {
                // exact-size content through streaming transforms
                let (t, m, _) = self.leaf_simple(syms);
                let mut f = Field::ty(&n, t);
                self.chain(&mut f, syms, false);
                fs.push(f);
                m
            }
            1 => {
                // a whole region through streaming transforms
                let k = 1 + self.t.us(2);
                let mut s2 = syms.clone();
                let (inner, m, _) = self.fields(&mut s2, k, depth + 1, false, true);
                let mut f = Field::new(&n, cont(inner));
                for _ in 0..1 + self.t.us(2) { let x = self.xform(syms, false, true); f.xf.push(x); }
                fs.push(f);
                m
            }
            _ => {
                // a boxed open array
                let l = self.name("n");
                fs.push(Field::ty(&l, s(Sc::U16)).calc(cast(call("blen", vec![id(&n)]), Sc::U16)));
                let o = self.name("o");
                let mut of = Field::ty(&o, arr(self.prim(), Len::Open));
                self.chain(&mut of, syms, true);
                fs.push(Field::new(&n, contl(id(&l), vec![of])));
                syms.push(Sym { name: l, k: K::Int(Sc::U16), opt: false, calc: true });
                2
            }
        }
    }
    fn prim(&mut self) -> Ty { match self.t.below(5) { 0 => le(Sc::U16), 1 => s(Sc::I32), 2 => Ty::F32, _ => s(Sc::U8) } }
    fn scal(&mut self) -> Ty { let sc = *self.t.pick(&ALL_SC); if self.t.chance(1, 3) { le(sc) } else { s(sc) } }
    fn leaf_simple(&mut self, syms: &[Sym]) -> (Ty, usize, bool) {
        match self.t.below(4) { 0 => { let t = self.scal(); let m = if let Ty::S(s) = &t { s.sc.size() } else { 0 }; (t, m, false) } 1 => (arr(s(Sc::U8), Len::Fixed(int(3))), 3, false), 2 => (refa("utf8", vec![int(4)]), 4, false), _ => { let e = self.length(syms); (arr(self.prim(), Len::Fixed(e)), 0, false) } }
    }
    fn leaf(&mut self, syms: &[Sym], tail_ok: bool, _arr: bool) -> (Ty, usize, bool) {
        let k = self.t.weighted(&[10, 1, 1, 2, 4, 3, 2, 1, 2, 3, 2, if tail_ok { 4 } else { 0 }, 1]);
        match k {
            0 => { let t = self.scal(); let m = if let Ty::S(s) = &t { s.sc.size() } else { 0 }; (t, m, false) }
            1 => (Ty::F32, 4, false), 2 => (Ty::F64, 8, false), 3 => (Ty::Bool, 1, false),
            4 => { let c: Vec<TI> = self.types.iter().filter(|t| t.args.is_empty() && !t.tail).cloned().collect(); if c.is_empty() { return (s(Sc::U8), 1, false) } let t = self.t.pick(&c).clone(); (rf(&t.name), t.min, false) }
            5 => { let e = self.length(syms); let t = if self.t.chance(1, 3) { let c: Vec<TI> = self.types.iter().filter(|t| t.args.is_empty() && !t.tail && t.min > 0).cloned().collect(); if c.is_empty() { self.scal() } else { rf(&self.t.pick(&c).name) } } else { self.scal() }; (arr(t, Len::Fixed(e)), 0, false) }
            6 => { let e = self.length(syms); (refa("utf8", vec![e]), 0, false) }
            7 => { let e = self.length(syms); (refa("utf16", vec![e]), 0, false) }
            8 => (rf("utf8"), 0, false),
            9 => (rf(*self.t.pick(&["v8", "v16", "v32", "v64", "v128", "u24"])), 1, false),
            10 => {
                let term = match self.t.below(4) { 0 => vec![0], 1 => vec![0xff, 0xfe], 2 => b"END".to_vec(), _ => vec![0, 0, 0, 1] };
                let t = match self.t.below(4) { 0 => s(Sc::U16), 1 => { let c: Vec<TI> = self.types.iter().filter(|t| t.args.is_empty() && !t.tail && t.min > 0).cloned().collect(); if c.is_empty() { s(Sc::U8) } else { rf(&self.t.pick(&c).name) } } _ => s(Sc::U8) };
                (arr(t, Len::Term(Expr::Str(term))), 0, false)
            }
            11 => { let t = if self.t.chance(1, 2) { self.scal() } else { let c: Vec<TI> = self.types.iter().filter(|t| t.args.is_empty() && !t.tail && t.min > 0).cloned().collect(); if c.is_empty() { s(Sc::U8) } else { rf(&self.t.pick(&c).name) } }; (arr(t, Len::Open), 0, true) }
            _ => { let n = 1 + self.t.below(3) as u128; let e = self.length(syms); (arr(arr(self.scal(), Len::Fixed(int(n))), Len::Fixed(e)), 0, false) }
        }
    }
    /// an expression for a count: literal, earlier field, or small arithmetic
    fn length(&mut self, syms: &[Sym]) -> Expr {
        let c: Vec<Sym> = syms.iter().filter(|s| matches!(s.k, K::Int(x) if !x.signed() && x.size() <= 8) && !s.opt && !s.calc).cloned().collect();
        let v: Vec<Sym> = syms.iter().filter(|s| s.k == K::V(Sc::U64) && !s.opt).cloned().collect();
        if !v.is_empty() && self.t.chance(1, 5) { return bin(Bop::BitAnd, id(&self.t.pick(&v).name), int(7)); }
        let lit = int(self.t.below(5) as u128);
        if c.is_empty() || self.t.chance(1, 4) { return lit; }
        let a = id(&self.t.pick(&c).name);
        match self.t.below(9) {
            0 => bin(Bop::Add, a, int(1 + self.t.below(3) as u128)),
            1 => bin(Bop::BitAnd, a, int(7)),
            2 => bin(Bop::Mod, a, int(3 + self.t.below(5) as u128)),
            3 => bin(Bop::Mul, a, int(2)),
            4 if !self.consts.is_empty() => { let k: Vec<(String, Sc)> = self.consts.clone(); let k = self.t.pick(&k).0.clone(); bin(Bop::Mod, bin(Bop::Add, a, id(&k)), int(6)) }
            5 => bin(Bop::Sub, a, int(1)),
            6 => { let b = id(&self.t.pick(&c).name); bin(Bop::BitAnd, bin(Bop::BitXor, a, b), int(7)) }
            _ => a,
        }
    }
    fn small(&mut self, syms: &[Sym], sc: Sc) -> Expr {
        let c: Vec<Sym> = syms.iter().filter(|s| s.k == K::Int(sc) && !s.opt && !s.calc).cloned().collect();
        if c.is_empty() || self.t.chance(1, 3) { return int(self.t.below(5) as u128); }
        let a = id(&self.t.pick(&c).name);
        match self.t.below(3) { 0 => bin(Bop::BitAnd, a, int(3)), _ => a }
    }
    fn variant(&mut self, n: &str) -> Expr { let vs: Vec<String> = crate::eval::enum_values(&self.spec, n).into_iter().filter(|x| x.1.is_some()).map(|x| x.0).collect(); Expr::Variant(n.into(), self.t.pick(&vs).clone()) }
    fn boolean(&mut self, syms: &[Sym], d: u32) -> Expr {
        if d > 0 && self.t.chance(1, 3) {
            return match self.t.below(5) {
                4 => { let a = self.integer(syms, Sc::U64, d - 1); call("odd", vec![a]) }
                0 => un(Uop::Not, self.boolean(syms, d - 1)),
                1 => { let a = self.boolean(syms, d - 1); let b = self.boolean(syms, d - 1); bin(Bop::Or, a, b) }
                2 => { let a = self.boolean(syms, d - 1); let b = self.boolean(syms, d - 1); bin(Bop::And, a, b) }
                _ => { let c = self.boolean(syms, d - 1); let a = self.boolean(syms, d - 1); let b = self.boolean(syms, d - 1); Expr::Tern(Box::new(c), Box::new(a), Box::new(b)) }
            };
        }
        let c: Vec<Sym> = syms.iter().filter(|s| matches!(s.k, K::Int(_) | K::V(_) | K::Bool | K::En(_) | K::Bi(_)) && (!s.opt || matches!(s.k, K::Int(_)))).cloned().collect();
        if c.is_empty() { return Expr::Bool(self.t.chance(1, 2)); }
        if !self.kb.is_empty() && self.t.chance(1, 12) { return id(&self.t.pick(&self.kb.clone()).clone()); }
        let s = self.t.pick(&c).clone();
        match &s.k {
            K::Bool => id(&s.name),
            K::En(n) => { let v = self.variant(n); bin(if self.t.chance(1, 3) { Bop::Ne } else { Bop::Eq }, id(&s.name), v) }
            K::Bi(n) => { let vs = crate::eval::bits_values(&self.spec, n); let m = self.t.pick(&vs).0.clone(); Expr::Member(Box::new(id(&s.name)), m) }
            K::V(sc) => { let op = *self.t.pick(&[Bop::Lt, Bop::Gt, Bop::Eq]); bin(op, id(&s.name), ints(self.t.below(120) as u128, *sc)) }
            K::Int(sc) => {
                let a = if s.opt { bin(Bop::Elvis, id(&s.name), ints(self.t.below(4) as u128, *sc)) } else if d > 0 { self.int_from(syms, *sc, d - 1, Some(&s.name)) } else { id(&s.name) };
                let op = *self.t.pick(&[Bop::Lt, Bop::Gt, Bop::Le, Bop::Ge, Bop::Eq, Bop::Ne]);
                let b = if d > 1 && self.t.chance(1, 3) { self.integer(syms, *sc, d - 1) } else { int(self.t.below(8) as u128) };
                if self.t.chance(1, 4) { bin(op, b, a) } else { bin(op, a, b) }
            }
            _ => Expr::Bool(true),
        }
    }
    /// a field's value as this integer type; enumerations and the like first become their own representation
    fn widen(&self, s: &Sym, sc: Sc) -> Expr {
        let own = match &s.k { K::En(n) | K::Bi(n) => self.spec.type_(n).and_then(|t| match &t.field.body { Body::Enum(e) => Some(e.rep.sc), Body::Bits(b) => Some(b.rep.sc), _ => None }), _ => None };
        match own { Some(r) if r != sc => cast(cast(id(&s.name), r), sc), _ => cast(id(&s.name), sc) }
    }
    /// an integer expression of exactly this type
    fn integer(&mut self, syms: &[Sym], sc: Sc, d: u32) -> Expr { self.int_from(syms, sc, d, None) }
    fn int_from(&mut self, syms: &[Sym], sc: Sc, d: u32, pin: Option<&str>) -> Expr {
        if d > 0 && self.t.chance(2, 3) {
            let a = self.int_from(syms, sc, d - 1, pin);
            return match self.t.below(12) {
                0 => { let b = self.integer(syms, sc, d - 1); bin(Bop::BitAnd, a, b) }
                1 => { let b = self.integer(syms, sc, d - 1); bin(Bop::BitOr, a, b) }
                2 => { let b = self.integer(syms, sc, d - 1); bin(Bop::BitXor, a, b) }
                3 => bin(if sc.signed() { Bop::ShrS } else { Bop::Shr }, a, int(self.t.below(5) as u128)),
                4 => bin(Bop::Mod, a, int(1 + self.t.below(9) as u128)),
                5 => bin(Bop::Div, a, int(1 + self.t.below(5) as u128)),
                6 => un(Uop::BitNot, a),
                7 => { let b = self.integer(syms, sc, d - 1); bin(Bop::Add, bin(Bop::BitAnd, a, int(0x1f)), bin(Bop::BitAnd, b, int(0x1f))) }
                8 => { let c = self.boolean(syms, d - 1); let b = self.integer(syms, sc, d - 1); Expr::Tern(Box::new(c), Box::new(a), Box::new(b)) }
                9 => bin(Bop::Mul, bin(Bop::BitAnd, a, int(7)), int(3)),
                10 => bin(Bop::Shl, bin(Bop::BitAnd, a, int(3)), int(self.t.below(3) as u128)),
                _ => bin(Bop::Sub, bin(Bop::BitOr, a, int(0x20)), int(0x0f)),
            };
        }
        if let Some(p) = pin { return id(p); }
        let same: Vec<Sym> = syms.iter().filter(|s| s.k == K::Int(sc) && !s.opt && !s.calc).cloned().collect();
        let other: Vec<Sym> = syms.iter().filter(|s| matches!(s.k, K::Int(_)) && s.k != K::Int(sc) && !s.opt && !s.calc).cloned().collect();
        let ks: Vec<String> = self.kc.iter().filter(|k| k.1 == sc).map(|k| k.0.clone()).collect();
        if !ks.is_empty() && self.t.chance(1, 5) { return id(&self.t.pick(&ks).clone()); }
        let enums: Vec<Sym> = syms.iter().filter(|s| matches!(s.k, K::En(_) | K::Bi(_)) && !s.opt && !s.calc).cloned().collect();
        let arrs: Vec<Sym> = syms.iter().filter(|s| matches!(s.k, K::Arr(x, _) if x == sc) && !s.opt).cloned().collect();
        if !arrs.is_empty() && self.t.chance(1, 2) {
            let a = self.t.pick(&arrs).clone();
            let K::Arr(_, n) = a.k else { unreachable!() };
            let at = |i: Expr| Expr::Index(Box::new(id(&a.name)), Box::new(i));
            let i = int(self.t.below(n.max(3)) as u128);
            return match self.t.below(4) {
                0 => { let l = call("len", vec![id(&a.name)]); Expr::Tern(Box::new(bin(Bop::Gt, l, i.clone())), Box::new(at(i)), Box::new(ints(self.t.below(100) as u128, sc))) }
                1 => { let e = self.length(syms); let l = call("len", vec![id(&a.name)]); Expr::Tern(Box::new(bin(Bop::Gt, l.clone(), int(0))), Box::new(at(bin(Bop::Mod, e, l))), Box::new(ints(1, sc))) }
                _ if n > 0 => at(int(self.t.below(n) as u128)),
                // may be beyond the end
                _ => at(i),
            };
        }
        if d > 0 && self.t.chance(1, 4) {
            let to = |e: Expr, k: Sc| if k == sc { e } else { cast(e, sc) };
            let sums: Vec<String> = syms.iter().filter(|s| matches!(s.k, K::Arr(..)) && !s.opt && !s.calc).map(|s| s.name.clone()).collect();
            return match self.t.below(6) {
                0 | 1 => { let a = self.integer(syms, Sc::U64, d - 1); to(call("bits", vec![a]), Sc::U8) }
                2 => { let a = self.integer(syms, Sc::U64, d - 1); let p = if self.t.chance(1, 5) { self.integer(syms, Sc::U64, 0) } else { int(1 + self.t.below(9) as u128) }; to(call("pad", vec![p, a]), Sc::U64) }
                3 if !sums.is_empty() => to(call("sum", vec![id(&self.t.pick(&sums).clone())]), Sc::U64),
                4 => { let a = self.integer(syms, Sc::U64, d - 1); let mut v = vec![a]; if self.t.chance(1, 2) { v.push(self.integer(syms, Sc::U64, d - 1)) } to(call("opt3", v), Sc::U64) }
                _ => { let a = self.integer(syms, Sc::U64, d - 1); let b = self.integer(syms, Sc::U64, d - 1); to(call("mixf", vec![a, b]), Sc::U64) }
            };
        }
        let sized: Vec<Sym> = syms.iter().filter(|s| matches!(s.k, K::Arr(..) | K::Str | K::En(_) | K::Bi(_) | K::Int(_) | K::Bool) && !s.opt && !s.calc).cloned().collect();
        if !sized.is_empty() && self.t.chance(1, 8) { let e = call("len", vec![id(&self.t.pick(&sized).name)]); return if sc == Sc::U64 { e } else { cast(e, sc) }; }
        match self.t.below(6) {
            0 | 1 | 2 if !same.is_empty() => id(&self.t.pick(&same).name),
            3 if !other.is_empty() => { let o = self.t.pick(&other).clone(); self.widen(&o, sc) }
            4 if !enums.is_empty() => { let o = self.t.pick(&enums).clone(); self.widen(&o, sc) }
            _ => ints(self.t.below(100) as u128, sc),
        }
    }
}
