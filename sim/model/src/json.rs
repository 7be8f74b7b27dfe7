//! Minimal JSON value, writer and reader.
use std::collections::BTreeMap;
#[derive(Clone, Debug, PartialEq)]
pub enum J { Null, Bool(bool), Num(f64), Str(String), Arr(Vec<J>), Obj(Vec<(String, J)>) }
impl From<&str> for J { fn from(s: &str) -> J { J::Str(s.into()) } }
impl From<String> for J { fn from(s: String) -> J { J::Str(s) } }
impl From<u64> for J { fn from(n: u64) -> J { J::Num(n as f64) } }
impl From<usize> for J { fn from(n: usize) -> J { J::Num(n as f64) } }
impl From<f64> for J { fn from(n: f64) -> J { J::Num(n) } }
impl From<bool> for J { fn from(n: bool) -> J { J::Bool(n) } }
impl From<&BTreeMap<String, u64>> for J { fn from(m: &BTreeMap<String, u64>) -> J { J::Obj(m.iter().map(|(k, v)| (k.clone(), J::Num(*v as f64))).collect()) } }
pub fn obj(v: Vec<(&str, J)>) -> J { J::Obj(v.into_iter().map(|(k, v)| (k.to_string(), v)).collect()) }
pub fn nums(v: &[u64]) -> J { J::Arr(v.iter().map(|x| J::Str(format!("{:x}", x))).collect()) }
pub fn hex(b: &[u8]) -> String { let mut s = String::with_capacity(b.len() * 2); for x in b { s.push_str(&format!("{:02x}", x)); } s }
pub fn unhex(s: &str) -> Vec<u8> { (0..s.len() / 2).filter_map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).ok()).collect() }
impl J {
    pub fn get(&self, k: &str) -> Option<&J> { match self { J::Obj(v) => v.iter().find(|x| x.0 == k).map(|x| &x.1), _ => None } }
    pub fn str(&self) -> &str { match self { J::Str(s) => s, _ => "" } }
    pub fn num(&self) -> f64 { match self { J::Num(n) => *n, _ => 0.0 } }
    pub fn arr(&self) -> &[J] { match self { J::Arr(v) => v, _ => &[] } }
    pub fn tape(&self) -> Vec<u64> { self.arr().iter().map(|x| u64::from_str_radix(x.str(), 16).unwrap_or(0)).collect() }
    pub fn write(&self, o: &mut String) {
        match self {
            J::Null => o.push_str("null"), J::Bool(b) => o.push_str(&b.to_string()),
            J::Num(n) => if n.fract() == 0.0 && n.abs() < 9e15 { o.push_str(&format!("{}", *n as i64)) } else { o.push_str(&format!("{:.3}", n)) },
            J::Str(s) => {
                o.push('"');
                for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)), c => o.push(c) } }
                o.push('"')
            }
            J::Arr(v) => { o.push('['); for (i, x) in v.iter().enumerate() { if i > 0 { o.push(',') } x.write(o) } o.push(']') }
            J::Obj(v) => { o.push('{'); for (i, (k, x)) in v.iter().enumerate() { if i > 0 { o.push_str(",\n ") } J::Str(k.clone()).write(o); o.push(':'); x.write(o) } o.push('}') }
        }
    }
    pub fn text(&self) -> String { let mut s = String::new(); self.write(&mut s); s }
    pub fn parse(s: &str) -> Option<J> { let b: Vec<char> = s.chars().collect(); let mut p = 0; let v = val(&b, &mut p)?; Some(v) }
}
fn ws(b: &[char], p: &mut usize) { while *p < b.len() && b[*p].is_whitespace() { *p += 1 } }
fn val(b: &[char], p: &mut usize) -> Option<J> {
    ws(b, p);
    match *b.get(*p)? {
        '{' => { *p += 1; let mut o = vec![]; loop { ws(b, p); if b.get(*p)? == &'}' { *p += 1; return Some(J::Obj(o)) } if b[*p] == ',' { *p += 1; continue } let J::Str(k) = val(b, p)? else { return None }; ws(b, p); if b.get(*p)? != &':' { return None } *p += 1; o.push((k, val(b, p)?)) } }
        '[' => { *p += 1; let mut o = vec![]; loop { ws(b, p); if b.get(*p)? == &']' { *p += 1; return Some(J::Arr(o)) } if b[*p] == ',' { *p += 1; continue } o.push(val(b, p)?) } }
        '"' => { *p += 1; let mut s = String::new(); loop { let c = *b.get(*p)?; *p += 1; match c { '"' => return Some(J::Str(s)), '\\' => { let e = *b.get(*p)?; *p += 1; match e { 'n' => s.push('\n'), 't' => s.push('\t'), 'u' => { let h: String = b.get(*p..*p + 4)?.iter().collect(); *p += 4; s.push(char::from_u32(u32::from_str_radix(&h, 16).ok()?)?) } e => s.push(e) } } c => s.push(c) } } }
        't' => { *p += 4; Some(J::Bool(true)) } 'f' => { *p += 5; Some(J::Bool(false)) } 'n' => { *p += 4; Some(J::Null) }
        _ => { let st = *p; while *p < b.len() && (b[*p].is_ascii_digit() || "+-.eE".contains(b[*p])) { *p += 1 } b[st..*p].iter().collect::<String>().parse().ok().map(J::Num) }
    }
}
