//! Writes the same specification differently: comments, white space, line ends, and none of it where none is needed.
use crate::tape::Tape;

/// tokens and the white space and comments between them, as pieces of the text
fn pieces(s: &str) -> Vec<(&str, bool)> {
    let b = s.as_bytes();
    let mut o = vec![];
    let mut i = 0;
    while i < b.len() {
        let st = i;
        let word = |c: u8| c.is_ascii_alphanumeric() || c == b'_' || c >= 0x80;
        if b[i].is_ascii_whitespace() { while i < b.len() && b[i].is_ascii_whitespace() { i += 1 } o.push((&s[st..i], true)); continue }
        if b[i..].starts_with(b"//") { while i < b.len() && b[i] != b'\n' { i += 1 } o.push((&s[st..i], true)); continue }
        if b[i..].starts_with(b"/*") { i += 2; while i < b.len() && !b[i..].starts_with(b"*/") { i += 1 } i = (i + 2).min(b.len()); o.push((&s[st..i], true)); continue }
        if b[i] == b'"' { i += 1; while i < b.len() && b[i] != b'"' { if b[i] == b'\\' { i += 1 } i += 1 } i = (i + 1).min(b.len()) }
        else if word(b[i]) { while i < b.len() && word(b[i]) { i += 1 } }
        else { while i < b.len() && !b[i].is_ascii_whitespace() && !word(b[i]) && b[i] != b'"' && (i == st || !b"()[]{},;".contains(&b[i]) && !b"()[]{},;".contains(&b[i - 1])) && !(i > st && (b[i..].starts_with(b"//") || b[i..].starts_with(b"/*"))) { i += 1 } }
        o.push((&s[st..i], false));
    }
    o
}
const NOTES: [&str; 16] = ["/**/", "/***/", "/* a comment */", "/* two\n lines */", "/* // */", "/* \" */", "/* type X = u8; */", "/*/ */", "// to the end\n", "//\n", "// */ \" /* \n", "// \u{fc}\u{1f600}\n", "//// x\r\n", "/* \u{e9} */", "/* * / */", "// type X = u8;\n"];
const SPACE: [&str; 8] = ["\n", "\t", "\r\n", "  ", "\n\n\n", " \t ", "\u{c}", "\r"];
pub fn layout(s: &str, t: &mut Tape) -> String {
    if t.chance(1, 2) { return s.to_string() }
    let dense = t.chance(1, 3);
    let rate = *t.pick(&[0usize, 2, 10, 40]);
    let p = pieces(s);
    let mut o = String::new();
    for (i, (x, space)) in p.iter().enumerate() {
        if *space && dense && x.trim().is_empty() && !(i > 0 && p[i - 1].0.starts_with("//")) {
            let hard = |k: Option<&(&str, bool)>| k.map(|(y, sp)| !*sp && y.len() == 1 && "()[]{},;".contains(y)).unwrap_or(true);
            if hard(i.checked_sub(1).map(|j| &p[j])) || hard(p.get(i + 1)) { continue }
            o.push(' ');
            continue
        }
        o.push_str(x);
        if t.below(100) < rate as u64 && !x.starts_with("//") {
            o.push_str(if t.chance(1, 2) { "\n" } else { " " });
            // a line of its own never looks like the mark that starts a file
            o.push_str(if t.chance(1, 2) { *t.pick(&NOTES) } else { *t.pick(&SPACE) });
        } else if *space && x.starts_with('\n') && t.chance(1, 6) { o.insert(o.len() - x.len(), '\r') }
    }
    if !o.ends_with('\n') { o.push('\n') }
    if rate > 0 && t.chance(1, 3) { o.push_str("// the end") }
    o
}
/// the same for a text in several files
pub fn layout_all(s: &str, t: &mut Tape) -> String {
    let mut o = String::new();
    let mut part = String::new();
    for l in s.split_inclusive('\n') {
        if l.starts_with(crate::modular::MARK) || l.starts_with("// visible: ") { if !part.is_empty() { o += &layout(&part, t); part.clear(); if !o.ends_with('\n') { o.push('\n') } } o += l } else { part += l }
    }
    if !part.is_empty() { o += &layout(&part, t) }
    o
}
