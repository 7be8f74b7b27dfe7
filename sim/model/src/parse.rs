//! Independent parser for the documented grammar (used for the hand-written corpus).
use crate::ast::*;
#[derive(Clone, PartialEq, Debug)]
enum T { Id(String), Int(u128), Str(Vec<u8>), P(&'static str) }
const PUNCT: [&str; 44] = [">>>", "==", "!=", "<=", ">=", "<<", ">>", "||", "&&", ":>", "::", "..", "->", "?:", "=", ",", ";", ":", "?", "[", "]", "{", "}", "(", ")",
    "<", ">", "+", "-", "*", "/", "%", "!", "~", "|", "^", "&", ".", "@", "#", "$", "`", "'", "\\"];
fn lex(s: &str) -> Result<Vec<T>, String> {
    let b = s.as_bytes();
    let mut i = 0;
    let mut o = vec![];
    'm: while i < b.len() {
        let c = b[i];
        if c.is_ascii_whitespace() { i += 1; continue; }
        if b[i..].starts_with(b"//") { while i < b.len() && b[i] != b'\n' { i += 1 } continue; }
        if b[i..].starts_with(b"/*") { i += 2; while i < b.len() && !b[i..].starts_with(b"*/") { i += 1 } i += 2; continue; }
        if c == b'"' {
            i += 1;
            let mut v = vec![];
            while i < b.len() && b[i] != b'"' {
                if b[i] == b'\\' && i + 1 < b.len() {
                    i += 1;
                    if b[i].is_ascii_hexdigit() {
                        let h = |c: u8| (c as char).to_digit(16).unwrap() as u8;
                        if i + 1 < b.len() && b[i + 1].is_ascii_hexdigit() { v.push(h(b[i]) * 16 + h(b[i + 1])); i += 2; } else { v.push(h(b[i])); i += 1; }
                    } else { v.push(b[i]); i += 1; }
                } else { v.push(b[i]); i += 1; }
            }
            i += 1;
            o.push(T::Str(v));
            continue;
        }
        if c.is_ascii_digit() {
            let st = i;
            if b[i..].starts_with(b"0x") {
                i += 2;
                while i < b.len() && b[i].is_ascii_hexdigit() { i += 1 }
                o.push(T::Int(u128::from_str_radix(&s[st + 2..i], 16).map_err(|e| e.to_string())?));
            } else {
                while i < b.len() && b[i].is_ascii_digit() { i += 1 }
                o.push(T::Int(s[st..i].parse().map_err(|_| "int".to_string())?));
            }
            continue;
        }
        if c.is_ascii_alphabetic() || c == b'_' {
            let st = i;
            while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == b'_') { i += 1 }
            o.push(T::Id(s[st..i].into()));
            continue;
        }
        for p in PUNCT { if b[i..].starts_with(p.as_bytes()) { o.push(T::P(p)); i += p.len(); continue 'm; } }
        return Err(format!("bad char {:?}", c as char));
    }
    Ok(o)
}
struct P { t: Vec<T>, i: usize }
type R<X> = Result<X, String>;
pub fn parse(s: &str) -> R<Spec> {
    // of a specification in several files, the one in one piece comes first
    let s = match s.find(&format!("\n{}", crate::modular::MARK)) { Some(i) => &s[..i + 1], None => s };
    let mut p = P { t: lex(s)?, i: 0 };
    let mut d = vec![];
    while p.i < p.t.len() { d.push(p.decl()?); }
    Ok(Spec { decls: d })
}
pub fn parse_expr(s: &str) -> R<Expr> { let mut p = P { t: lex(s)?, i: 0 }; p.expr() }
pub fn parse_type(s: &str) -> R<Ty> { let mut p = P { t: lex(s)?, i: 0 }; p.ty() }
impl P {
    fn pk(&self, p: &str) -> bool { matches!(self.t.get(self.i), Some(T::P(x)) if *x == p) }
    fn pkid(&self, p: &str) -> bool { matches!(self.t.get(self.i), Some(T::Id(x)) if x == p) }
    fn eat(&mut self, p: &str) -> bool { let r = self.pk(p); if r { self.i += 1 } r }
    fn ex(&mut self, p: &str) -> R<()> { if self.eat(p) { Ok(()) } else { Err(format!("expected {} at token {} {:?}", p, self.i, self.t.get(self.i))) } }
    fn id(&mut self) -> R<String> { match self.t.get(self.i) { Some(T::Id(x)) => { let x = x.clone(); self.i += 1; Ok(x) } x => Err(format!("expected ident, got {:?}", x)) } }
    fn decl(&mut self) -> R<Decl> {
        let k = self.id()?;
        let d = match &*k {
            "import_ffi" => { let n = self.id()?; self.id()?; let k = self.id()?; Decl::Ffi(n, k) }
            "import" => {
                let mut items = vec![];
                loop {
                    let n = self.id()?;
                    let a = if self.pkid("as") { self.i += 1; Some(self.id()?) } else { None };
                    items.push((n, a));
                    if !self.eat(",") { break }
                    if self.pkid("from") { break }
                }
                self.id()?;
                match self.t.get(self.i) { Some(T::Str(s)) => { let s = String::from_utf8_lossy(s).to_string(); self.i += 1; Decl::Import(items, s) } _ => return Err("from".into()) }
            }
            "const" => { let n = self.id()?; self.ex(":")?; let t = self.ty()?; self.ex("=")?; Decl::Const(ConstDecl { name: n, ty: t, val: self.expr()? }) }
            "type" => {
                let n = self.id()?;
                let mut args = vec![];
                if self.eat("(") {
                    while !self.eat(")") {
                        let n = self.id()?; self.ex(":")?; let t = self.ty()?;
                        let default = if self.eat("?") { Some(self.expr()?) } else { None };
                        args.push(Arg { name: n, ty: t, default });
                        if !self.eat(",") { self.ex(")")?; break }
                    }
                }
                self.ex("=")?;
                let mut f = self.field()?;
                f.name = n.clone();
                Decl::Type(TypeDecl { name: n, args, field: f })
            }
            k => return Err(format!("decl {}", k)),
        };
        self.ex(";")?;
        Ok(d)
    }
    fn field(&mut self) -> R<Field> {
        let body = if self.pkid("container") {
            self.i += 1;
            let len = if self.eat("[") { let e = self.expr()?; self.ex("]")?; Some(e) } else { None };
            let mut tagged = false;
            while self.eat("+") { if self.id()? == "tagged_enum" { tagged = true } }
            self.ex("{")?;
            let mut fields = vec![];
            while !self.pk("}") {
                if self.eat(".") { self.id()?; self.ex(":")?; fields.push(Field::pad(self.expr()?)); }
                else { let n = self.id()?; self.ex(":")?; let mut f = self.field()?; f.name = n; fields.push(f); }
                if !self.eat(",") { break }
            }
            self.ex("}")?;
            Body::Cont(Cont { len, tagged, fields })
        } else if self.pkid("enum") {
            self.i += 1;
            let Ty::S(rep) = self.ty()? else { return Err("rep".into()) };
            self.ex("{")?;
            let mut items = vec![];
            while !self.pk("}") {
                let n = self.id()?;
                let it = if self.eat("=") { if self.pkid("default") { self.i += 1; EItem::Default } else { EItem::Expr(self.expr()?) } } else { EItem::Next };
                items.push((n, it));
                if !self.eat(",") { break }
            }
            self.ex("}")?;
            Body::Enum(EnumD { rep, items })
        } else if self.pkid("bitfield") {
            self.i += 1;
            let Ty::S(rep) = self.ty()? else { return Err("rep".into()) };
            self.ex("{")?;
            let mut items = vec![];
            while !self.pk("}") {
                let n = self.id()?;
                let it = if self.eat("=") { Some(self.expr()?) } else { None };
                items.push((n, it));
                if !self.eat(",") { break }
            }
            self.ex("}")?;
            Body::Bits(BitsD { rep, items })
        } else { Body::Ty(self.ty()?) };
        let mut f = Field::new("", body);
        if self.eat("=") { f.calc = Some(self.expr()?); }
        while self.eat("+") { self.id()?; }
        if self.eat("{") { f.cond = Some(self.expr()?); self.ex("}")?; }
        while self.eat("->") {
            let name = self.id()?;
            let args = if self.pk("(") { self.args()? } else { vec![] };
            let cond = if self.eat("{") { let e = self.expr()?; self.ex("}")?; Some(e) } else { None };
            f.xf.push(Xf { name, args, cond });
        }
        Ok(f)
    }
    fn args(&mut self) -> R<Vec<Expr>> {
        self.ex("(")?;
        let mut a = vec![];
        while !self.eat(")") { a.push(self.expr()?); if !self.eat(",") { self.ex(")")?; break } }
        Ok(a)
    }
    fn ty(&mut self) -> R<Ty> {
        let n = self.id()?;
        let mut t = if let Some(sc) = Sc::from_name(&n) { Ty::S(Scal::be(sc)) }
            else if let Some(sc) = n.strip_suffix("le").and_then(Sc::from_name).filter(|s| s.size() > 1) { Ty::S(Scal { sc, le: true }) }
            else { match &*n { "f32" => Ty::F32, "f64" => Ty::F64, "bool" => Ty::Bool, _ => { let a = if self.pk("(") { self.args()? } else { vec![] }; Ty::Ref(n, a) } } };
        while self.eat("[") {
            let l = if self.eat("..") { if self.pk("]") { Len::Open } else { Len::Term(self.expr()?) } } else { Len::Fixed(self.expr()?) };
            self.ex("]")?;
            t = arr(t, l);
        }
        Ok(t)
    }
    fn expr(&mut self) -> R<Expr> {
        let c = self.binl(1)?;
        if self.eat("?") {
            let a = self.expr()?; self.ex(":")?; let b = self.binl(1)?;
            Ok(Expr::Tern(Box::new(c), Box::new(a), Box::new(b)))
        } else { Ok(c) }
    }
    fn binl(&mut self, l: u8) -> R<Expr> {
        use Bop::*;
        if l == 11 { return self.castl(); }
        let mut e = self.binl(l + 1)?;
        loop {
            let op = [Or, And, BitOr, BitXor, BitAnd, Eq, Ne, Lt, Gt, Le, Ge, Shl, Shr, ShrS, Add, Sub, Mul, Div, Mod].into_iter().find(|o| bop_level(*o) == l && self.pk(bop_text(*o)));
            match op { Some(o) => { self.i += 1; let r = self.binl(l + 1)?; e = bin(o, e, r); } None => return Ok(e) }
        }
    }
    fn castl(&mut self) -> R<Expr> {
        let mut e = self.unary()?;
        loop {
            if self.eat(":>") { let t = self.ty()?; e = Expr::Cast(Box::new(e), t); }
            else if self.eat("?:") { let r = self.unary()?; e = bin(Bop::Elvis, e, r); }
            else { return Ok(e) }
        }
    }
    fn unary(&mut self) -> R<Expr> {
        if self.eat("!") { return Ok(un(Uop::Not, self.unary()?)); }
        if self.eat("-") { return Ok(un(Uop::Neg, self.unary()?)); }
        if self.eat("~") { return Ok(un(Uop::BitNot, self.unary()?)); }
        let mut e = self.prim()?;
        loop {
            if self.eat("[") { let i = self.expr()?; self.ex("]")?; e = Expr::Index(Box::new(e), Box::new(i)); }
            else if self.eat(".") { e = Expr::Member(Box::new(e), self.id()?); }
            else { return Ok(e) }
        }
    }
    fn prim(&mut self) -> R<Expr> {
        match self.t.get(self.i).cloned() {
            Some(T::Int(v)) => { self.i += 1; let s = match self.t.get(self.i) { Some(T::Id(n)) => Sc::from_name(n), _ => None }; if s.is_some() { self.i += 1 } Ok(Expr::Int(v, s)) }
            Some(T::Str(v)) => { self.i += 1; Ok(Expr::Str(v)) }
            Some(T::P("(")) => { self.i += 1; let e = self.expr()?; self.ex(")")?; Ok(e) }
            Some(T::Id(n)) => {
                self.i += 1;
                if n == "true" { return Ok(Expr::Bool(true)) }
                if n == "false" { return Ok(Expr::Bool(false)) }
                if self.eat("::") { return Ok(Expr::Variant(n, self.id()?)); }
                if self.pk("(") { return Ok(Expr::Call(n, self.args()?)); }
                Ok(Expr::Id(n))
            }
            x => Err(format!("expr at {:?}", x)),
        }
    }
}
