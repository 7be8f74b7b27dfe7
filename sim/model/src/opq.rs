//! Lengths that depend on what a general-purpose compressor chooses to emit.
use crate::ast::*;
use std::collections::HashSet;

fn gz(x: &[Xf]) -> bool { x.iter().any(|x| x.name == "gzip") }
fn inside(b: &Body, ts: &HashSet<String>) -> bool {
    fn ty(t: &Ty, ts: &HashSet<String>) -> bool { match t { Ty::Arr(t, _) => ty(t, ts), Ty::Ref(n, _) => ts.contains(n), _ => false } }
    match b { Body::Cont(c) => c.fields.iter().any(|f| gz(&f.xf) || inside(&f.body, ts)), Body::Ty(t) => ty(t, ts), _ => false }
}
fn ids(e: &Expr, o: &mut Vec<String>) {
    match e {
        Expr::Id(n) => o.push(n.clone()),
        Expr::Bin(_, a, b) | Expr::Index(a, b) => { ids(a, o); ids(b, o) }
        Expr::Un(_, a) | Expr::Cast(a, _) | Expr::Member(a, _) => ids(a, o),
        Expr::Tern(a, b, c) => { ids(a, o); ids(b, o); ids(c, o) }
        Expr::Call(_, a) => for x in a { ids(x, o) },
        _ => (),
    }
}
fn blens(e: &Expr, o: &mut Vec<String>) {
    match e {
        Expr::Call(f, a) => { if f == "blen" { if let Some(Expr::Id(n)) = a.first() { o.push(n.clone()) } } for x in a { blens(x, o) } }
        Expr::Bin(_, a, b) | Expr::Index(a, b) => { blens(a, o); blens(b, o) }
        Expr::Un(_, a) | Expr::Cast(a, _) | Expr::Member(a, _) => blens(a, o),
        Expr::Tern(a, b, c) => { blens(a, o); blens(b, o); blens(c, o) }
        _ => (),
    }
}
fn walk<'a>(f: &'a Field, g: &mut dyn FnMut(&'a Field)) { g(f); if let Body::Cont(c) = &f.body { for f in &c.fields { walk(f, g) } } }
fn tyx(t: &Ty, o: &mut Vec<String>) {
    match t {
        Ty::Arr(t, l) => { tyx(t, o); match &**l { Len::Fixed(e) | Len::Term(e) => ids(e, o), _ => () } }
        Ty::Ref(_, a) => for e in a { ids(e, o) },
        _ => (),
    }
}
/// computed fields that hold the length of compressed data, or None when such a length (or one that would have to
/// be declared in advance) matters for anything else
pub fn fuzzy(spec: &Spec) -> Option<HashSet<String>> {
    let mut ts: HashSet<String> = HashSet::new();
    loop {
        let n = ts.len();
        for t in spec.types() { if gz(&t.field.xf) || inside(&t.field.body, &ts) { ts.insert(t.name.clone()); } }
        if ts.len() == n { break; }
    }
    let mut out = HashSet::new();
    for t in spec.types() {
        let mut names = HashSet::new();
        let mut regions = HashSet::new();
        walk(&t.field, &mut |f| if let Body::Cont(_) = &f.body { if inside(&f.body, &ts) { regions.insert(f.name.clone()); } });
        walk(&t.field, &mut |f| if let Some(e) = &f.calc { let mut b = vec![]; blens(e, &mut b); if b.iter().any(|b| regions.contains(b)) { names.insert(f.name.clone()); } });
        let mut ok = true;
        // data that ends by itself leaves the end of the base64 text around it unread
        walk(&t.field, &mut |f| if let Some(o) = f.xf.iter().rposition(|x| x.name == "base64") {
            if f.xf[..o].iter().any(|x| x.name == "framex" || x.name == "gzip") { ok = false }
            if let Body::Cont(c) = &f.body { if c.len.is_some() || c.fields.last().map_or(false, |l| !l.xf.is_empty()) { ok = false } }
        });
        let mut uses = vec![];
        walk(&t.field, &mut |f| {
            if let Some(e) = &f.cond { ids(e, &mut uses) }
            if let Some(e) = &f.calc { if !names.contains(&f.name) { ids(e, &mut uses) } }
            for x in &f.xf { for e in &x.args { ids(e, &mut uses) } if let Some(e) = &x.cond { ids(e, &mut uses) } }
            match &f.body {
                Body::Ty(t) => tyx(t, &mut uses),
                Body::Pad(e) => ids(e, &mut uses),
                Body::Cont(c) => if let Some(e) = &c.len {
                    let mut i = vec![];
                    ids(e, &mut i);
                    if inside(&f.body, &ts) { if !i.iter().any(|n| names.contains(n)) { ok = false } } else { uses.extend(i) }
                },
                _ => (),
            }
        });
        if !ok || uses.iter().any(|u| names.contains(u)) { return None; }
        out.extend(names);
    }
    Some(out)
}

/// the largest value each of these fields (and every cast on its way there) can hold
pub fn caps(spec: &Spec, names: &HashSet<String>) -> std::collections::HashMap<String, u128> {
    fn ty(t: &Ty, c: &mut u128) { if let Ty::S(s) = t { *c = (*c).min(s.sc.max_u()) } }
    fn casts(e: &Expr, c: &mut u128) {
        match e {
            Expr::Cast(a, t) => { ty(t, c); casts(a, c) }
            Expr::Bin(_, a, b) | Expr::Index(a, b) => { casts(a, c); casts(b, c) }
            Expr::Un(_, a) | Expr::Member(a, _) => casts(a, c),
            Expr::Tern(a, b, d) => { casts(a, c); casts(b, c); casts(d, c) }
            Expr::Call(_, a) => for x in a { casts(x, c) },
            _ => (),
        }
    }
    let mut o = std::collections::HashMap::new();
    for t in spec.types() {
        walk(&t.field, &mut |f| if let (true, Some(e)) = (names.contains(&f.name), &f.calc) {
            let mut c = u128::MAX;
            if let Body::Ty(t) = &f.body { ty(t, &mut c) }
            casts(e, &mut c);
            let x = o.entry(f.name.clone()).or_insert(c);
            *x = (*x).min(c);
        });
    }
    o
}
