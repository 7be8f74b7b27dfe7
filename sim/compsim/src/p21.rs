//! Specifications that went wrong: compiled or refused with an error, never a crash, hang or unbounded work.
use crate::common::*;
use crate::flag;
use crate::hooks;
use psmodel::modular;

#[derive(Clone, PartialEq)]
enum Tok { Id(String), Num(String), Op(String), Str(String), Space(String) }
impl Tok { fn text(&self) -> &str { match self { Tok::Id(s) | Tok::Num(s) | Tok::Op(s) | Tok::Str(s) | Tok::Space(s) => s } } }
fn tokens(t: &str) -> Vec<Tok> {
    let c: Vec<char> = t.chars().collect();
    let mut o = vec![];
    let mut i = 0;
    while i < c.len() {
        let s = i;
        let w = |c: char| c.is_alphanumeric() || c == '_';
        if c[i].is_whitespace() { while i < c.len() && c[i].is_whitespace() { i += 1 } o.push(Tok::Space(c[s..i].iter().collect())) }
        else if c[i] == '/' && c.get(i + 1) == Some(&'/') { while i < c.len() && c[i] != '\n' { i += 1 } o.push(Tok::Space(c[s..i].iter().collect())) }
        else if c[i] == '"' { i += 1; while i < c.len() && c[i] != '"' { if c[i] == '\\' { i += 1 } i += 1 } i = (i + 1).min(c.len()); o.push(Tok::Str(c[s..i].iter().collect())) }
        else if c[i].is_ascii_digit() { while i < c.len() && w(c[i]) { i += 1 } o.push(Tok::Num(c[s..i].iter().collect())) }
        else if w(c[i]) { while i < c.len() && w(c[i]) { i += 1 } o.push(Tok::Id(c[s..i].iter().collect())) }
        else {
            let op = ["->", ":>", "::", "..", "==", "!=", ">=", "<=", ">>>", ">>", "<<", "&&", "||", "?:"].iter().find(|x| { let x: Vec<char> = x.chars().collect(); c[i..].starts_with(&x) });
            i += op.map(|x| x.len()).unwrap_or(1);
            o.push(Tok::Op(c[s..i].iter().collect()))
        }
    }
    o
}
const OPS: [&str; 22] = ["+", "-", "*", "/", "%", "==", "!=", "<", ">", "<=", ">=", ">>", ">>>", "<<", "&", "|", "^", "&&", "||", "?:", "::", "."];
const TYPES: [&str; 27] = ["u8", "u16", "u32", "u64", "u128", "i8", "i16", "i32", "i64", "i128", "u16le", "i128le", "u64be", "f32", "f64", "bool", "f64le", "v8", "v32", "v128", "utf8", "utf16", "utf8(3)", "u8[..]", "u16[..\"ab\"]", "u8[3][2]", "u24"];
const NUMS: [&str; 24] = ["0", "1", "2", "255", "256", "65535", "65536", "127", "128", "4294967295", "4294967296", "18446744073709551615", "18446744073709551616", "340282366920938463463374607431768211455", "0u8", "255u8", "1i8", "5u16", "3i32", "7u64", "170141183460469231731687303715884105727i128", "0x80", "0xffffffff", "64"];
const EXPRS: [&str; 44] = ["1 / 0", "1u8 % 0u8", "0 - 1", "255u8 + 1u8", "1 << 200", "1u8 << 8u8", "1 >> 64", "-1", "-128i8", "-(0u8 - 1u8)", "~0", "!true", "!0", "-true", "~false", "\"\"", "\"abc\"", "\"abc\"[1]", "\"abc\"[9]", "true", "true ? 1 : 2", "1 ? 2 : 3", "true ?: false", "1 ?: 2", "len(1)", "len(\"abc\")", "blen(1)", "blen(x)", "sum(1)", "bits(3)", "bits(true)", "pad(0, 3)", "pad(1)", "odd(1, 2)", "len()", "nosuch(1)", "Nope::A", "nope", "nope.x", "nope[1]", "1 :> u8[3]", "300 :> u8", "1 :> bool", "1 :> Nope"];
const DECLS: [&str; 40] = ["type A1 = A1;", "type A1 = A2; type A2 = A1;", "type A1 = container { a: A1 };", "type A1 = container { n: u8, a: A1[n] };", "type A1 = A1[3];", "type A1 = A1[..];", "const C1: u8 = C1;", "const C1: u8 = C2; const C2: u8 = C1;", "const C1: u8 = 256;", "const C1: i8 = -129;", "const C1: u8 = 1 / 0;", "const C1: u8[3] = \"abc\";", "const C1: bool = 1 == 1;", "const C1: f32 = 1;", "const C1: u8 = true ? 1 : 2;", "type E1 = enum u8 { };", "type E1 = enum u8 { A = 255, B };", "type E1 = enum i8 { A = 127, B };", "type E1 = enum u8 { A, A };", "type E1 = enum u8 { A = 1, B = 1 };", "type E1 = enum u8 { A = E1::B, B = E1::A };", "type E1 = enum u8 { A = default, B = default };", "type E1 = enum f32 { A };", "type B1 = bitfield u8 { };", "type B1 = bitfield u8 { A, B, C, D, E, F, G, H, I };", "type B1 = bitfield i8 { A = 128, B };", "type B1 = bitfield u8 { A = 0 };", "type X1 = container { };", "type X1 = container [3] { };", "type X1 = container +tagged_enum { };", "type X1 = container +nope { a: u8 };", "type X1(a: u8) = u8[a]; type X2 = X1;", "type X1(a: u8 ? 1 / 0) = u8[a];", "type X1(a: u8, a: u8) = u8[a];", "type X1 = u8 { true };", "type X1 = container { a: u8 } { false };", "type X1 = container { a: u8, a: u8 };", "type X1 = container { a: u8 = b, b: u8 = a };", "type X1 = container { a: u8 = blen(x) :> u8, x: container [a] { b: u8 = len(c) :> u8, c: u8[b] } };", "type X1 = container { x: container { a: u8 }, n: u8 = blen(x) :> u8 };"];
const NAMES: [&str; 24] = ["type", "container", "enum", "as", "import", "const", "union", "auto", "r", "reader", "writer", "Vec", "Option", "Some", "None", "Ok", "Err", "Result", "String", "default", "u8", "std", "A_b_C", "__"];
const ITEMS: [&str; 24] = [".pad: 3,", ".pad: 0,", ".pad: len(x),", "extra: u8,", "extra: u8 [auto],", "extra: u8 +auto,", "Aa = 1,", "Aa = -1,", "Zz = default,", "Zz = 0 ..= 5,", "inner: container { a: u8 },", "inner: container [3] { a: u8 },", "inner: enum u8 { A = 1, },", "inner: bitfield u8 { A = 1, },", "rest: u8[..],", "term: u8[.. u8],", "v: v32 [7u8],", "opt: u8 { true },", "opt: u8 { 1 },", "Tt { true }: u8,", "tr: u8 -> gzip,", "+auto,", "a: u8, a: u8,", ".foo: 2,"];
const PREFIXES: [&str; 10] = ["+auto", "+tagged_enum", "v8", "u8be", "enum u8", "container [4]", "bitfield u16", "container", "x", "[3]"];
const SUFFIXES: [&str; 30] = ["[3]", "[..]", "[0u8]", "[-1]", "[.. u8]", "{ true }", "{ 1 }", "{ false && x }", "-> xorx(1)", "-> gzip", "-> gzip { true }", "-> framex -> gzip", "+auto", "+auto(1)", "+auto(len(x))", "+tagged_enum", "(1)", "(1, 2)", "()", "= 1", "= default", ":> u8", ".x", "[0]", "?: 1", "? 1 : 2", "&& true", "default", "be", "<- x"];
fn wrong(w: &W, text: &str) -> String {
    let mut t = tokens(text);
    for _ in 0..1 + w.us(3) {
        let ids: Vec<usize> = (0..t.len()).filter(|&i| matches!(t[i], Tok::Id(_))).collect();
        let solid: Vec<usize> = (0..t.len()).filter(|&i| !matches!(t[i], Tok::Space(_))).collect();
        if ids.len() < 3 || solid.len() < 3 { break }
        let pick = |w: &W, v: &[usize]| v[w.us(v.len())];
        let of = |f: &dyn Fn(&Tok) -> bool| -> Vec<usize> { (0..t.len()).filter(|&i| f(&t[i])).collect() };
        match w.us(19) {
            15 | 16 | 17 => { // something extra: an item, a flag, a transform, a condition, an argument
                let (mut a, mut what): (Vec<usize>, &[&str]) = match w.us(5) {
                    0 | 1 => (of(&|x| matches!(x, Tok::Op(o) if o == "{" || o == ",")), &ITEMS),
                    2 => (of(&|x| matches!(x, Tok::Op(o) if o == ":")), &PREFIXES),
                    3 => (ids.clone(), &SUFFIXES),
                    _ => (of(&|x| matches!(x, Tok::Op(o) if o == "," || o == ";" || o == "}")), &SUFFIXES),
                };
                if a.is_empty() { a = ids.clone(); what = &SUFFIXES }
                let before = what.as_ptr() == SUFFIXES.as_ptr() && !matches!(t[a[0]], Tok::Id(_));
                // often the first place inside a declaration
                let a = pick(w, &a);
                t.insert(if before { a } else { a + 1 }, Tok::Space(format!(" {} ", what[w.us(what.len())])));
                w.fault("something extra inserted")
            }
            14 => { // nested deeply
                let k = 1 + w.us([4, 20, 60, 200][w.us(4)]);
                if w.chance(1, 3) {
                    let n = of(&|x| matches!(x, Tok::Op(o) if o == ";")); if n.is_empty() { continue }
                    let a = pick(w, &n);
                    let d = match w.us(4) {
                        0 => format!("type Deep = container {{ {}a: u8{} }};", "a: container { ".repeat(k), " }".repeat(k)),
                        1 => format!("type Deep = u8{};", "[1]".repeat(k)),
                        2 => { let mut d = String::from("type D0 = container { a: u8 };"); for i in 0..k { d += &format!(" type D{} = container {{ a: D{}[1], b: D{} }};", i + 1, i, i) } d }
                        _ => { let mut d = String::from("const D0: u64 = 1;"); for i in 0..k.min(14) { d += &format!(" const D{}: u64 = D{} ^ D{};", i + 1, i, i) } d }
                    };
                    t.insert(a + 1, Tok::Space(format!("\n{}\n", d)))
                } else {
                    let a = pick(w, &ids);
                    let x = t[a].text().to_string();
                    let e = match w.us(6) {
                        0 => format!("{}{}{}", "(".repeat(k), x, ")".repeat(k)),
                        1 => format!("{}{}", ["!", "~", "-"][w.us(3)].repeat(k), x),
                        2 => format!("{}{}{}", "(1 + ".repeat(k), x, ")".repeat(k)),
                        3 => format!("{}{}", x, [" + 1", " == true", " + 1u8", " :> u64", " & 1", "[0]", " ?: 1"][w.us(7)].repeat(k)),
                        4 => format!("({}{}{})", "true ? 1 : ".repeat(k), x, ""),
                        _ => format!("{}{}{}", "len(".repeat(k), x, ")".repeat(k)),
                    };
                    t[a] = Tok::Id(e)
                }
                w.fault("nested deeply")
            }
            13 => { let a = pick(w, &ids); t[a] = Tok::Id(NAMES[w.us(NAMES.len())].into()); w.fault("name replaced by a reserved one") }
            0 | 1 => { let a = pick(w, &ids); let b = pick(w, &ids); t[a] = t[b].clone(); w.fault("name replaced") }
            2 => { let n = of(&|x| matches!(x, Tok::Num(_))); if n.is_empty() { continue } let a = pick(w, &n); t[a] = Tok::Num(NUMS[w.us(NUMS.len())].into()); w.fault("number replaced") }
            3 | 4 => { let n = of(&|x| matches!(x, Tok::Num(_))); if n.is_empty() { continue } let a = pick(w, &n); t[a] = Tok::Num(format!("({})", EXPRS[w.us(EXPRS.len())])); w.fault("number replaced by an expression") }
            5 => { let n = of(&|x| matches!(x, Tok::Op(o) if OPS.contains(&&**o))); if n.is_empty() { continue } let a = pick(w, &n); t[a] = Tok::Op(OPS[w.us(OPS.len())].into()); w.fault("operator replaced") }
            6 | 7 => { let n = of(&|x| matches!(x, Tok::Id(i) if TYPES.contains(&&**i))); if n.is_empty() { continue } let a = pick(w, &n); t[a] = Tok::Id(TYPES[w.us(TYPES.len())].into()); w.fault("type replaced") }
            8 => { let a = pick(w, &ids); t[a] = Tok::Id(format!("({})", EXPRS[w.us(EXPRS.len())])); w.fault("name replaced by an expression") }
            9 => { let n = of(&|x| matches!(x, Tok::Op(o) if o == ";")); if n.is_empty() { continue } let a = pick(w, &n); t.insert(a + 1, Tok::Space(format!("\n{}\n", DECLS[w.us(DECLS.len())]))); w.fault("declaration added") }
            10 | 11 => { // a field, argument or the like is lost, repeated or moved
                let n = of(&|x| matches!(x, Tok::Op(o) if o == "," || o == ";")); if n.len() < 2 { continue }
                let k = w.us(n.len() - 1); let (a, b) = (n[k] + 1, n[k + 1] + 1);
                let part: Vec<Tok> = t[a..b].to_vec();
                match w.us(3) { 0 => { t.drain(a..b); w.fault("field lost") } 1 => { for x in part.into_iter().rev() { t.insert(a, x) } w.fault("field repeated") } _ => { let c = n[w.us(n.len())] + 1; for x in part.into_iter().rev() { t.insert(c, x) } w.fault("field copied elsewhere") } }
            }
            12 => { let a = pick(w, &solid); let b = pick(w, &solid); let x = t[a].clone(); t[a] = t[b].clone(); t[b] = x; w.fault("tokens swapped") }
            _ => { let a = pick(w, &solid); t.remove(a); w.fault("token lost") }
        }
    }
    t.iter().map(|x| x.text()).collect()
}
pub fn scenario(w: &W) -> Res {
    let src = source(w, false, w.chance(1, 4));
    let mut files = src.files.clone();
    let k = if w.chance(1, 3) { w.us(files.len()) } else { files.len() - 1 };
    files[k].1 = if w.chance(1, 8) { crate::p17::damage(w, &files[k].1) } else { wrong(w, &files[k].1) };
    let mut o = Opt::pick(w);
    // asynchronous code around base64 is not implemented, which the compiler says with a panic
    if files.iter().any(|f| f.1.contains("base64")) { o.is_async = false }
    let show: String = files.iter().map(|(n, t)| format!("{}{}\n{}\n", modular::MARK, n, t)).collect();
    w.files.replace(show.clone());
    w.ev(digest(show.as_bytes()));
    w.log(|| format!("compile {} with {:?}", src.name, o));
    if crate::flag("--text") { println!("{}", show) }
    let before = hooks::allocated();
    let f2 = files.clone();
    let seed = w.u64() | 1;
    let n: usize = files.iter().map(|f| f.1.len()).sum();
    let r = std::thread::Builder::new().stack_size(8 << 20).spawn(move || { hooks::seed_random(seed); compile(&f2.last().unwrap().1, &|| front(&f2), &o) }).unwrap().join().unwrap();
    let after = hooks::allocated();
    let (bytes, calls) = (after.0 - before.0, after.1 - before.1);
    w.steps.set(calls);
    w.log(|| format!("{} bytes in {} steps", bytes, calls));
    if flag("--ratio") { println!("RATIO {} {} {}", n, bytes, calls) }
    if bytes > 100_000_000 + 40_000 * n as u64 || calls > 100_000 + 400 * n as u64 { return viol(format!("compiling {} bytes of text took {} bytes of memory in {} steps", n, bytes, calls)) }
    match r {
        Comp::Panic(p) => { let at = p.rsplit("src/").next().unwrap_or("").replace('\n', " "); viol(format!("{} (the compiler crashed on a wrong specification)", at)) }
        Comp::Error(e) => { w.ev(digest(e.as_bytes())); w.log(|| format!("refused: {}", e)); Ok(if e.contains("nexpected") && e.contains("EOF") { "refused, incomplete" } else { "refused" }) }
        Comp::Code(c) => {
            w.ev(digest(c.as_bytes()));
            if let Err(e) = syn::parse_str::<syn::File>(&c) { return viol(format!("the code generated for a wrong specification is not Rust: {}", e)) }
            Ok("compiled")
        }
    }
}
