//! Damaged text: a tree or an error, within bounded time, memory and stack.
use crate::common::*;
use crate::hooks;
use psmodel::modular;

/// comments and blank space aside, does the text end where a declaration ends (or hold nothing)?
pub fn complete(t: &str) -> bool {
    let b = t.as_bytes();
    let mut i = 0;
    let mut last = b';';
    while i < b.len() {
        if b[i..].starts_with(b"//") { while i < b.len() && b[i] != b'\n' { i += 1 } continue }
        if b[i..].starts_with(b"/*") { match t[i + 2..].find("*/") { Some(k) => { i += 2 + k + 2; continue } None => return last == b';' } }
        if b[i] == b'"' { i += 1; while i < b.len() && b[i] != b'"' { if b[i] == b'\\' { i += 1 } i += 1 } if i >= b.len() { return false } last = b'"'; i += 1; continue }
        if !b[i].is_ascii_whitespace() { last = b[i] }
        i += 1;
    }
    last == b';'
}
/// how many declarations end within the text: a `;` outside of strings and comments
fn count(t: &str) -> usize {
    let b = t.as_bytes();
    let mut i = 0;
    let mut n = 0;
    while i < b.len() {
        if b[i..].starts_with(b"//") { while i < b.len() && b[i] != b'\n' { i += 1 } continue }
        if b[i..].starts_with(b"/*") { match t[i + 2..].find("*/") { Some(k) => { i += 2 + k + 2; continue } None => return n } }
        if b[i] == b'"' { i += 1; while i < b.len() && b[i] != b'"' { if b[i] == b'\\' { i += 1 } i += 1 } i += 1; continue }
        if b[i] == b';' { n += 1 }
        i += 1;
    }
    n
}
const BITS: [&str; 64] = ["type ", "const ", "import ", "import_ffi ", " as ", " from ", "container ", "enum ", "bitfield ", "{", "}", "(", ")", "[", "]", "[..", "..", ".", ".pad: ", ":", "::", ":>", ";", ",", "=", "==", "->", "?", "?:", "+", "+tagged_enum ", "-", "!", "~", "*", "/", "//", "/*", "*/", "\"", "\\", "\"\\", "\\x", "0x", "0x ", "0", "9", "340282366920938463463374607431768211456", "99999999999999999999999999999999999999999", "0xfffffffffffffffffffffffffffffffffffff", "u8", "i128le", "u16le", "f32", "bool", "true", "default", "len(", "default = ", "é", "\u{feff}", "\0", "日本", "\r"];
fn at(w: &W, s: &str) -> usize { let k = w.us(s.len() + 1); (0..=k).rev().find(|&k| s.is_char_boundary(k)).unwrap() }
fn span(w: &W, s: &str) -> (usize, usize) { let a = at(w, s); let n = [1, 4, 30, 300][w.us(4)]; let n = w.us(n + 1); let b = (a..=(a + n).min(s.len())).rev().find(|&k| s.is_char_boundary(k)).unwrap(); (a, b) }
pub fn damage(w: &W, text: &str) -> String {
    let mut s = text.to_string();
    for _ in 0..1 + w.us(4) {
        match w.us(9) {
            0 => { let k = at(w, &s); s.truncate(k); w.fault("torn"); }
            1 => { // one byte changed
                if s.is_empty() { continue }
                let a = at(w, &s); if a == s.len() { continue }
                let c = s[a..].chars().next().unwrap();
                let n = if c.is_ascii() && w.chance(3, 4) { ((c as u8) ^ (1 << w.us(7))) as char } else { char::from_u32([0, 0xe9, 0x7f, 0xfffd, 0x1f600, 0x22, 0x5c][w.us(7)]).unwrap() };
                s.replace_range(a..a + c.len_utf8(), &n.to_string()); w.fault("flipped");
            }
            2 => { let (a, b) = span(w, &s); s.replace_range(a..b, ""); w.fault("lost part"); }
            3 => { let (a, b) = span(w, &s); let x = s[a..b].to_string(); let k = at(w, &s); s.insert_str(k, &x); w.fault("duplicated part"); }
            4 | 5 => { let k = at(w, &s); s.insert_str(k, BITS[w.us(BITS.len())]); w.fault("inserted token"); }
            6 => { // a sector of the file was never written
                let a = at(w, &s) / 512 * 512; let a = (0..=a).rev().find(|&k| s.is_char_boundary(k)).unwrap(); let b = (a..=(a + 512).min(s.len())).rev().find(|&k| s.is_char_boundary(k)).unwrap();
                s.replace_range(a..b, &"\0".repeat(b - a)); w.fault("lost sector");
            }
            7 => { let (a, b) = span(w, &s); let (c, d) = span(w, &s); let x = s[a..b].to_string(); s.replace_range(c..d, &x); w.fault("misplaced part"); }
            _ => { // nested or repeated without an end
                let p = ["(", "[", "{", "!", "-", "~", "container {", "container { a: ", "u8[", "1 + ", "1 ? ", "a.", "a[", "f(", "(1 + ", "type a = ", "\"", "/*", "//", "a ? b : ", "a :> ", "+x ", "-> x ", "-> x(", "[..]", "{ a } ", ",", ";", "0", "a", " ", "\n"][w.us(32)];
                let n = [3, 40, 300, 3000, 60000][w.us(5)];
                let k = at(w, &s); s.insert_str(k, &p.repeat(n)); w.fault("endless repetition");
            }
        }
    }
    s
}
pub fn scenario(w: &W) -> Res {
    let src = plain_source(w, false, w.chance(1, 4));
    let text = src.files[w.us(src.files.len())].1.clone();
    // hand-written files have comments and odd spacing
    let text = match w.us(4) { 0 => dress(w, &text), 1 => psmodel::layout::layout(&text, &mut psmodel::tape::Tape::seeded(w.u64() | 1)), _ => text };
    let torn = w.chance(1, 3);
    let s = if torn { let k = at(w, &text); w.fault("torn"); text[..k].to_string() } else { damage(w, &text) };
    w.files.replace(format!("{}input\n{}", modular::MARK, s));
    w.ev(digest(s.as_bytes()));
    w.log(|| format!("{} bytes: {:?}", s.len(), s.chars().take(2000).collect::<String>()));
    let n = s.len();
    let t = s.clone();
    let before = hooks::allocated();
    // the stack of an ordinary thread
    let r = std::thread::Builder::new().stack_size(2 << 20).spawn(move || guard(|| protospec_build::parse(&t).map(|p| p.declarations.len()).map_err(|e| format!("{}", e)))).unwrap().join().unwrap();
    let after = hooks::allocated();
    let (bytes, calls) = (after.0 - before.0, after.1 - before.1);
    w.steps.set(calls);
    match &r { Err(_) => (), Ok(Ok(k)) => w.ev(*k as u64), Ok(Err(e)) => w.ev(digest(e.as_bytes())) }
    w.log(|| format!("{:?}; {} bytes allocated in {} steps", r, bytes, calls));
    // the first parse of a process also sets up its tables
    if bytes > 1_000_000 + 3000 * n as u64 || calls > 20_000 + 60 * n as u64 { return viol(format!("reading {} bytes of text took {} bytes of memory in {} steps", n, bytes, calls)) }
    match r {
        Err(p) => viol(format!("reading damaged text panics: {}", p)),
        Ok(Ok(k)) => {
            if torn {
                if !complete(&s) { return viol(format!("text torn within a declaration is read without an error ({} declarations)", k)) }
                if k != count(&s) { return viol(format!("{} declarations of {} are read from a torn text", k, count(&s))) }
                return Ok("torn between declarations");
            }
            Ok("damaged, still a tree")
        }
        Ok(Err(_)) => { if torn && complete(&s) { return viol("text torn between two declarations is not readable".into()) } Ok(if torn { "torn, an error" } else { "damaged, an error" }) }
    }
}
/// comments and blank space in between
fn dress(w: &W, t: &str) -> String {
    let mut o = String::new();
    for l in t.split_inclusive('\n') {
        match w.us(6) { 0 => o += "// a comment; with { things } in it \"\n", 1 => o += "/* type x = u8; \" */ ", 2 => o += "\t \r\n", _ => () }
        o += l;
    }
    if w.chance(1, 3) { o += "// the end" }
    o
}
