//! Splits a specification over several files that import from each other.
use crate::ast::*;
use crate::tape::Tape;
use crate::xf;
use std::collections::{BTreeMap, BTreeSet, HashSet};

pub const MARK: &str = "//// file ";
#[derive(Clone, Debug)]
pub struct Modular {
    /// name, text; the importing program comes last and is called "main"
    pub files: Vec<(String, String)>,
    /// declarations whose generated code the importing program needs
    pub visible: HashSet<String>,
    /// files that import what they do not need, or through another file, or under another name
    pub aliases: usize, pub repeats: usize, pub relays: usize, pub imports: usize,
}
impl Modular {
    /// the flat specification, followed by the files the compiler is given instead
    pub fn text(&self, flat: &str) -> String { let mut o = flat.to_string(); for (n, t) in &self.files { if !o.ends_with('\n') { o.push('\n') } o += MARK; o += n; o.push('\n'); o += t; } o }
}
/// files of a text made by `Modular::text`; None for an ordinary specification
pub fn files(text: &str) -> Option<Vec<(String, String)>> {
    let mut o: Vec<(String, String)> = vec![];
    for l in text.split_inclusive('\n') {
        if let Some(n) = l.strip_prefix(MARK) { o.push((n.trim().to_string(), String::new())); } else if let Some(f) = o.last_mut() { f.1.push_str(l) }
    }
    if o.is_empty() { None } else { Some(o) }
}
/// the spellings of a file name that all mean the same file
pub fn normalize(n: &str) -> String { let n = n.strip_prefix("./").unwrap_or(n); let n = n.strip_prefix("lib/../").unwrap_or(n); n.strip_suffix(".pspec").unwrap_or(n).to_string() }
fn spell(n: &str, t: &mut Tape) -> String { match t.below(6) { 0..=2 => n.to_string(), 3 => format!("./{}", n), 4 => format!("lib/../{}", n), _ => format!("{}.pspec", n) } }

fn ex_names(e: &Expr, o: &mut BTreeSet<String>) {
    walk_expr(e, &mut |x| match x { Expr::Id(n) | Expr::Variant(n, _) => { o.insert(n.clone()); } Expr::Cast(_, t) => ty_names(t, o), _ => () });
}
fn ty_names(t: &Ty, o: &mut BTreeSet<String>) {
    match t {
        Ty::Arr(t, l) => { ty_names(t, o); if let Len::Fixed(e) | Len::Term(e) = &**l { ex_names(e, o) } }
        Ty::Ref(n, a) => { o.insert(n.clone()); for e in a { ex_names(e, o) } }
        _ => (),
    }
}
fn field_names(f: &Field, o: &mut BTreeSet<String>) {
    match &f.body {
        Body::Ty(t) => ty_names(t, o),
        Body::Cont(c) => { if let Some(l) = &c.len { ex_names(l, o) } for f in &c.fields { field_names(f, o) } }
        Body::Enum(e) => for (_, i) in &e.items { if let EItem::Expr(e) = i { ex_names(e, o) } },
        Body::Bits(b) => for (_, i) in &b.items { if let Some(e) = i { ex_names(e, o) } },
        Body::Pad(e) => ex_names(e, o),
    }
    for e in f.cond.iter().chain(&f.calc) { ex_names(e, o) }
    for x in &f.xf { o.insert(x.name.clone()); for e in x.args.iter().chain(&x.cond) { ex_names(e, o) } }
}
/// every name a declaration mentions (declared, foreign and local ones)
pub fn names(d: &Decl) -> BTreeSet<String> {
    let mut o = BTreeSet::new();
    match d {
        Decl::Type(t) => { for a in &t.args { ty_names(&a.ty, &mut o); if let Some(d) = &a.default { ex_names(d, &mut o) } } field_names(&t.field, &mut o) }
        Decl::Const(c) => { ty_names(&c.ty, &mut o); ex_names(&c.val, &mut o) }
        _ => (),
    }
    o
}
fn calls(d: &Decl) -> BTreeSet<String> {
    let mut o = BTreeSet::new();
    if let Decl::Type(t) = d { walk_field(&t.field, &mut |e, _| walk_expr(e, &mut |x| { if let Expr::Call(n, _) = x { o.insert(n.clone()); } })) }
    if let Decl::Const(c) = d { walk_expr(&c.val, &mut |x| { if let Expr::Call(n, _) = x { o.insert(n.clone()); } }) }
    o
}
type Map = BTreeMap<String, String>;
fn rn(n: &mut String, m: &Map) { if let Some(x) = m.get(n) { *n = x.clone() } }
fn rex(e: &mut Expr, m: &Map) {
    match e {
        Expr::Id(n) | Expr::Variant(n, _) => rn(n, m),
        Expr::Bin(_, a, b) | Expr::Index(a, b) => { rex(a, m); rex(b, m) }
        Expr::Un(_, a) | Expr::Member(a, _) => rex(a, m),
        Expr::Cast(a, t) => { rex(a, m); rty(t, m) }
        Expr::Tern(a, b, c) => { rex(a, m); rex(b, m); rex(c, m) }
        Expr::Call(_, a) => for x in a { rex(x, m) },
        _ => (),
    }
}
fn rty(t: &mut Ty, m: &Map) {
    match t {
        Ty::Arr(t, l) => { rty(t, m); if let Len::Fixed(e) | Len::Term(e) = &mut **l { rex(e, m) } }
        Ty::Ref(n, a) => { rn(n, m); for e in a { rex(e, m) } }
        _ => (),
    }
}
fn rfield(f: &mut Field, m: &Map) {
    match &mut f.body {
        Body::Ty(t) => rty(t, m),
        Body::Cont(c) => { if let Some(l) = &mut c.len { rex(l, m) } for f in &mut c.fields { rfield(f, m) } }
        Body::Enum(e) => for (_, i) in &mut e.items { if let EItem::Expr(e) = i { rex(e, m) } },
        Body::Bits(b) => for (_, i) in &mut b.items { if let Some(e) = i { rex(e, m) } },
        Body::Pad(e) => rex(e, m),
    }
    for e in f.cond.iter_mut().chain(&mut f.calc) { rex(e, m) }
    for x in &mut f.xf { rn(&mut x.name, m); for e in x.args.iter_mut().chain(&mut x.cond) { rex(e, m) } }
}
fn rename(d: &mut Decl, m: &Map) {
    match d {
        Decl::Type(t) => { for a in &mut t.args { rty(&mut a.ty, m); if let Some(d) = &mut a.default { rex(d, m) } } rfield(&mut t.field, m) }
        Decl::Const(c) => { rty(&mut c.ty, m); rex(&mut c.val, m) }
        _ => (),
    }
}
/// the values of enums and bit fields are computed by the compiler, so that their code mentions nothing else
fn values(d: &Decl) -> bool { matches!(d, Decl::Type(TypeDecl { field: Field { body: Body::Enum(_) | Body::Bits(_), .. }, .. })) }
fn dname(d: &Decl) -> Option<&str> { match d { Decl::Type(t) => Some(&t.name), Decl::Const(c) => Some(&c.name), _ => None } }
const FOREIGN: [(&str, &str); 9] = [("utf8", "type"), ("utf16", "type"), ("v8", "type"), ("v16", "type"), ("v32", "type"), ("v64", "type"), ("v128", "type"), ("u24", "type"), ("gzip", "transform")];
fn foreign(n: &str) -> Option<&'static str> { if xf::kind(n).is_some() || n == "gzip" || n == "base64" { return Some("transform") } FOREIGN.iter().find(|x| x.0 == n).map(|x| x.1) }
/// every local name (fields, arguments): these must not be captured by an import
fn locals(spec: &Spec) -> HashSet<String> {
    let mut o = HashSet::new();
    fn go(f: &Field, o: &mut HashSet<String>) { o.insert(f.name.clone()); if let Body::Cont(c) = &f.body { for f in &c.fields { go(f, o) } } }
    for t in spec.types() { if let Body::Cont(c) = &t.field.body { for f in &c.fields { go(f, &mut o) } } for a in &t.args { o.insert(a.name.clone()); } }
    o
}
/// None when the declarations rely on each other in a circle
pub fn split(spec: &Spec, t: &mut Tape) -> Option<Modular> {
    let ds: Vec<&Decl> = spec.decls.iter().filter(|d| dname(d).is_some()).collect();
    let index: BTreeMap<&str, usize> = ds.iter().enumerate().map(|(i, d)| (dname(d).unwrap(), i)).collect();
    let local = locals(spec);
    if index.keys().any(|n| local.contains(*n)) { return None }
    let deps: Vec<Vec<usize>> = ds.iter().map(|d| names(d).iter().filter_map(|n| index.get(&**n).copied()).collect()).collect();
    let n = 1 + t.us(4);
    // files are numbered so that each imports only from earlier ones; the last is the program
    let mut file = vec![usize::MAX; ds.len()];
    fn place(i: usize, deps: &[Vec<usize>], file: &mut [usize], busy: &mut Vec<usize>, n: usize, t: &mut Tape) -> bool {
        if file[i] != usize::MAX { return true }
        if busy.contains(&i) { return false }
        busy.push(i);
        let mut lo = 0;
        for &d in &deps[i] { if d != i { if !place(d, deps, file, busy, n, t) { return false } lo = lo.max(file[d]); } }
        busy.pop();
        file[i] = lo + t.us((n - lo + 1).min(3));
        true
    }
    let mut busy = vec![];
    for i in 0..ds.len() { if !place(i, &deps, &mut file, &mut busy, n, t) { return None } }
    let mut m = Modular { files: vec![], visible: HashSet::new(), aliases: 0, repeats: 0, relays: 0, imports: 0 };
    // what each file can pass on: declared or foreign name -> its names in that file
    let mut known: Vec<BTreeMap<String, Vec<String>>> = vec![];
    let mut fresh = 0;
    for f in 0..=n {
        let mine: Vec<usize> = (0..ds.len()).filter(|&i| file[i] == f).collect();
        let mut need: BTreeSet<String> = BTreeSet::new();
        let mut fneed: BTreeSet<String> = BTreeSet::new();
        for &i in &mine {
            for x in names(ds[i]) { if let Some(&j) = index.get(&*x) { if file[j] != f { need.insert(x); } } else if foreign(&x).is_some() && !local.contains(&x) { fneed.insert(x); } }
        }
        // things nobody here needs, so that they are passed on or just lie around; the program needs something to do
        for i in 0..ds.len() { if file[i] < f && t.chance(if f == n { 4 } else { 1 }, 6) { need.insert(dname(ds[i]).unwrap().to_string()); } }
        let mut k: BTreeMap<String, Vec<String>> = mine.iter().map(|&i| { let x = dname(ds[i]).unwrap().to_string(); (x.clone(), vec![x]) }).collect();
        let mut head: Vec<String> = vec![];
        let mut imps: Vec<String> = vec![];
        let mut map = Map::new();
        for x in fneed {
            let from: Vec<usize> = (0..f).filter(|&g| known[g].contains_key(&x)).collect();
            if !from.is_empty() && t.chance(1, 2) { need.insert(x); }
            else { head.push(format!("import_ffi {} as {};\n", x, foreign(&x).unwrap())); k.insert(x.clone(), vec![x]); }
        }
        let mut groups: BTreeMap<usize, Vec<String>> = BTreeMap::new();
        for x in need {
            let from: Vec<usize> = (0..f).filter(|&g| known[g].contains_key(&x)).collect();
            let times = if t.chance(1, 5) { 2 } else { 1 };
            for r in 0..times {
                let g = *t.pick(&from);
                if index.get(&*x).map(|&i| file[i] != g).unwrap_or(false) { m.relays += 1 }
                if r > 0 { m.repeats += 1 }
                let theirs = t.pick(&known[g][&x]).clone();
                // a name of this file: its own, a new one, or one that another file uses for something else
                let ours = if t.chance(1, 3) { m.aliases += 1; fresh += 1; if index.contains_key(&*x) { format!("Im{}", fresh) } else { format!("im{}", fresh) } } else { x.clone() };
                let it = if ours == theirs && !t.chance(1, 8) { theirs.clone() } else { format!("{} as {}", theirs, ours) };
                k.entry(x.clone()).or_default().push(ours.clone());
                if r == 0 || t.chance(1, 2) { map.insert(x.clone(), ours); }
                m.imports += 1;
                groups.entry(g).or_default().push(it);
            }
        }
        for (g, items) in groups {
            // one statement or several
            let cut = if items.len() > 1 && t.chance(1, 3) { t.range(1, items.len() - 1) } else { items.len() };
            for part in [&items[..cut], &items[cut..]] { if !part.is_empty() { imps.push(format!("import {}{} from \"{}\";\n", part.join(", "), if t.chance(1, 6) { "," } else { "" }, spell(&m.files[g].0, t))); } }
            if t.chance(1, 8) { m.repeats += 1; let l = imps.last().unwrap().clone(); imps.push(l); }
        }
        let mut fns: BTreeSet<String> = BTreeSet::new();
        for &i in &mine { for c in calls(ds[i]) { if matches!(&*c, "sum" | "bits" | "pad" | "mixf" | "opt3" | "odd") { fns.insert(c); } } }
        for c in fns { head.push(format!("import_ffi {} as function;\n", c)); }
        let mut body: Vec<String> = mine.iter().map(|&i| { let mut d = ds[i].clone(); rename(&mut d, &map); Spec { decls: vec![d] }.print() }).collect();
        // imports count wherever they stand
        for l in head.into_iter().chain(imps) { let p = if t.chance(1, 4) { t.us(body.len() + 1) } else { 0 }; body.insert(p, l); }
        if f == n {
            let mut todo: Vec<usize> = k.keys().filter_map(|x| index.get(&**x).copied()).collect();
            while let Some(i) = todo.pop() { if m.visible.insert(dname(ds[i]).unwrap().to_string()) { if !values(ds[i]) { todo.extend(&deps[i]) } } }
        }
        known.push(k);
        m.files.push((if f == n { "main".into() } else { format!("m{}", f) }, body.concat()));
    }
    Some(m)
}
