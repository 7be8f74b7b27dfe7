//! Conversions between model values and generated types, and the codec table.
use case::CaseExt;
use psmodel::codec::for_fields;
use psmodel::eval::{bits_values, enum_values};
use psmodel::genspec::Case;
use psmodel::*;
use std::fmt::Write;

/// the types whose code is generated: all, unless the program imports some of them
pub fn visible(text: &str) -> Option<std::collections::HashSet<String>> { text.lines().next().and_then(|l| l.strip_prefix(crate::VISIBLE)).map(|l| l.split_whitespace().map(|x| x.to_string()).collect()) }
pub fn spec(c: &Case, src: &str, is_async: bool, anyhow: bool, o: &mut String) {
    let s = &c.spec;
    let _ = write!(o, "use simrt::{{*, psmodel::{{V, val::SimVal}}}};\npub mod g {{\n{}\n}}\n", src.replace(" ; ", " ;\n"));
    let cls = if anyhow { "class_any" } else { "class" };
    if anyhow { o.push_str("fn class_any(e: anyhow::Error) -> SimErr { match e.downcast::<std::io::Error>() { Ok(e) => class(Box::new(e)), Err(e) => SimErr::Other(e.to_string()) } }\n"); }
    let mut table = String::new();
    let vis = visible(&c.text);
    for t in s.types() {
        let n = &t.name;
        if vis.as_ref().map(|v| !v.contains(n)).unwrap_or(false) { continue }
        match &t.field.body {
            Body::Enum(e) => {
                let m = e.rep.sc.mask();
                let vs = enum_values(s, n);
                let _ = writeln!(o, "impl SimVal for g::{n} {{ fn to_v(&self) -> V {{ let r = (*self).to_repr() as u128 & {m}u128; V::Enum(match self {{");
                for (v, r) in &vs { let _ = write!(o, "g::{n}::{v}{} => {v:?}, ", if r.is_none() { "(_)" } else { "" }); }
                let _ = writeln!(o, "}}.to_string(), r) }}\n fn from_v(v: &V) -> Option<Self> {{ match v {{ V::Enum(n, _r) => Some(match &**n {{");
                for (v, r) in &vs { let _ = write!(o, "{v:?} => g::{n}::{v}{}, ", if r.is_none() { format!("(*_r as {})", e.rep.sc.name()) } else { String::new() }); }
                let _ = writeln!(o, "_ => return None }}), _ => None }} }} }}");
            }
            Body::Bits(b) => {
                // flag words are built and read through the generated API: constants, operators, getters and setters
                let (m, r) = (b.rep.sc.mask(), b.rep.sc.name());
                let (mut set, mut get) = (String::new(), String::new());
                for (i, (f, v)) in bits_values(s, n).iter().enumerate() {
                    if *v == 0 { continue }
                    let (c, f) = (f.to_snake().to_uppercase(), f.to_snake());
                    let how = match i % 4 { 0 => format!("x.set_{f}()"), 1 => format!("x |= g::{n}::{c}"), 2 => format!("x = x | g::{n}::{c}"), _ => format!("x = x ^ (!x & g::{n}::{c})") };
                    let _ = write!(set, "if r & {v}u128 == {v}u128 {{ {how}; seen |= {v}u128; }} ");
                    let _ = write!(get, "if self.{f}() != (r & {v}u128 != 0) {{ r ^= {v}u128; }} ");
                }
                let _ = writeln!(o, "#[allow(unused_mut, unused_assignments)] impl SimVal for g::{n} {{ fn to_v(&self) -> V {{ let mut r = self.0 as u128 & {m}u128; {get} V::Bits(r) }} fn from_v(v: &V) -> Option<Self> {{ match v {{ V::Bits(r) => {{ let r = *r; let mut seen = 0u128; let mut x = g::{n}::ZERO; {set} x.0 |= (r & !seen) as {r}; Some(x) }}, _ => None }} }} }}");
            }
            Body::Ty(_) => { let _ = writeln!(o, "impl SimVal for g::{n} {{ fn to_v(&self) -> V {{ V::New(Box::new(self.0.to_v())) }} fn from_v(v: &V) -> Option<Self> {{ match v {{ V::New(x) => Some(g::{n}(SimVal::from_v(x)?)), _ => None }} }} }}"); }
            Body::Cont(k) if k.tagged => {
                let _ = writeln!(o, "impl SimVal for g::{n} {{ fn to_v(&self) -> V {{ match self {{");
                for a in &k.fields {
                    let v = &a.name;
                    match &a.body {
                        Body::Cont(ic) => { let f = names(ic); let _ = writeln!(o, "g::{n}::{v} {{ {} }} => V::Var({v:?}.into(), Box::new(V::Rec(vec![{}]))),", f.join(", "), f.iter().map(|x| format!("({x:?}.into(), {x}.to_v())")).collect::<Vec<_>>().join(", ")); }
                        _ => { let _ = writeln!(o, "g::{n}::{v}(x) => V::Var({v:?}.into(), Box::new(x.to_v())),"); }
                    }
                }
                let _ = writeln!(o, "}} }}\n fn from_v(v: &V) -> Option<Self> {{ match v {{ V::Var(n, x) => match (&**n, &**x) {{");
                for a in &k.fields {
                    let v = &a.name;
                    match &a.body {
                        Body::Cont(ic) => { let f = names(ic); let _ = writeln!(o, "({v:?}, V::Rec(_f)) => Some(g::{n}::{v} {{ {} }}),", f.iter().map(|x| format!("{x}: field(_f, {x:?})?")).collect::<Vec<_>>().join(", ")); }
                        _ => { let _ = writeln!(o, "({v:?}, x) => Some(g::{n}::{v}(SimVal::from_v(x)?)),"); }
                    }
                }
                let _ = writeln!(o, "_ => None }}, _ => None }} }} }}");
            }
            Body::Cont(k) => {
                let f = names(k);
                let _ = writeln!(o, "impl SimVal for g::{n} {{ fn to_v(&self) -> V {{ V::Rec(vec![{}]) }} fn from_v(v: &V) -> Option<Self> {{ match v {{ V::Rec(_f) => Some(g::{n} {{ {} }}), _ => None }} }} }}",
                    f.iter().map(|x| format!("({x:?}.into(), self.{x}.to_v())")).collect::<Vec<_>>().join(", "), f.iter().map(|x| format!("{x}: field(_f, {x:?})?")).collect::<Vec<_>>().join(", "));
            }
            Body::Pad(_) => (),
        }
        let args: String = t.args.iter().enumerate().map(|(i, a)| if a.default.is_some() { format!(", a.get({i}).map(conv)") } else { format!(", conv(&a[{i}])") }).collect();
        // enumerations and flag words are not messages of their own: they are coded inside their containers
        let _ = writeln!(o, "fn d_{n}(r: &mut SimReader, a: &[V]) -> Result<V, SimErr> {{ let v = g::{n}::decode_sync(r{args}).map_err({cls})?; Ok(v.to_v()) }}");
        let _ = writeln!(o, "fn e_{n}(w: &mut SimWriter, a: &[V], v: &V) -> Result<(), SimErr> {{ let v: g::{n} = conv(v); v.encode_sync(w{args}).map_err({cls}) }}");
        if is_async {
            let _ = writeln!(o, "fn da_{n}<'a>(r: &'a mut SimReader, a: &'a [V]) -> Fut<'a, Result<V, SimErr>> {{ Box::pin(async move {{ let v = g::{n}::decode_async(r{args}).await.map_err({cls})?; Ok(v.to_v()) }}) }}");
            let _ = writeln!(o, "fn ea_{n}<'a>(w: &'a mut SimWriter, a: &'a [V], v: &'a V) -> Fut<'a, Result<(), SimErr>> {{ Box::pin(async move {{ let v: g::{n} = conv(v); v.encode_async(w{args}).await.map_err({cls}) }}) }}");
        }
        let _ = writeln!(table, "    Codec {{ ty: {n:?}, dec: d_{n}, enc: e_{n}, shape: |v| <g::{n} as SimVal>::from_v(v).map(|x| x.to_v()), dec_a: {}, enc_a: {} }},", if is_async { format!("Some(da_{n})") } else { "None".into() }, if is_async { format!("Some(ea_{n})") } else { "None".into() });
    }
    let _ = writeln!(o, "pub static CODECS: &[Codec] = &[\n{}];\nfn field<T: SimVal>(f: &[(String, V)], n: &str) -> Option<T> {{ f.iter().find(|x| x.0 == n).and_then(|x| T::from_v(&x.1)) }}", table);
}
fn names(c: &Cont) -> Vec<String> { let mut o = vec![]; for_fields(c, &mut |f, _| o.push(f.name.clone())); o }
