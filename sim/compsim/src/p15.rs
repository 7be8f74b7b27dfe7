//! Imports: any failing request fails the compilation; nothing brings it down.
use crate::common::*;
use crate::p17;
use std::collections::HashMap;

fn with_stack<T: Send + 'static>(f: impl FnOnce() -> T + Send + 'static) -> T { std::thread::Builder::new().stack_size(8 << 20).spawn(f).unwrap().join().unwrap() }
struct Obs { code: Result<String, String>, panicked: bool, seen: Vec<(Req, String)>, fired: Vec<(usize, Req, Bad, String)> }
fn attempt(files: &[(String, String)], plan: Vec<(usize, Bad)>, faulty_prelude: bool, o: Opt) -> Obs {
    let files: Vec<(String, String)> = files.to_vec();
    with_stack(move || {
        let main = files.last().unwrap().1.clone();
        let st = std::rc::Rc::new(RResState::default());
        let st2 = st.clone();
        let fs: HashMap<String, String> = files.into_iter().collect();
        let plan: std::collections::BTreeMap<usize, Bad> = plan.into_iter().collect();
        let c = compile(&main, &|| Front::new(Res_ { files: fs.clone(), plan: plan.clone(), state: st2.clone() }, faulty_prelude), &o);
        let (code, panicked) = match c { Comp::Code(c) => (Ok(c), false), Comp::Error(e) => (Err(e), false), Comp::Panic(p) => (Err(p), true) };
        let seen = st.seen.borrow().clone();
        let fired = st.fired.borrow().clone();
        Obs { code, panicked, seen, fired }
    })
}
/// the items of generated code, in a canonical order
fn items(code: &str) -> Option<Vec<String>> {
    use proc_macro2::TokenTree;
    let ts: proc_macro2::TokenStream = code.parse().ok()?;
    let mut o = vec![];
    let mut cur = String::new();
    for t in ts {
        let end = match &t { TokenTree::Group(g) => g.delimiter() == proc_macro2::Delimiter::Brace, TokenTree::Punct(p) => p.as_char() == ';', _ => false };
        cur += &t.to_string();
        cur.push(' ');
        if end { o.push(std::mem::take(&mut cur)); }
    }
    if !cur.is_empty() { o.push(cur) }
    o.sort();
    Some(o)
}
pub fn scenario(w: &W) -> Res {
    let s = plain_source(w, false, !w.chance(1, 8));
    let o = Opt { is_async: false, anyhow: false, debug: false, derives: false };
    w.files.replace(s.text());
    w.ev(digest(s.text().as_bytes()));
    w.log(|| format!("compile {} ({} files)", s.name, s.files.len()));
    let pre = w.chance(1, 2);
    let base = attempt(&s.files, vec![], pre, o);
    for (r, n) in &base.seen { w.ev(digest(n.as_bytes()) ^ *r as u64) }
    let Ok(code) = &base.code else { return viol(format!("a valid specification in {} files {}: {}", s.files.len(), if base.panicked { "makes the compiler panic" } else { "is rejected" }, base.code.err().unwrap())) };
    let n = base.seen.len();
    w.log(|| format!("{} requests: {}", n, base.seen.iter().map(|(r, x)| format!("{:?} {}", r, x)).collect::<Vec<_>>().join(", ")));
    let kind = w.us(10);
    match kind {
        // the n-th request fails, or several do
        0..=4 => {
            if n == 0 { return skip("no requests") }
            let mut plan = vec![];
            for _ in 0..1 + w.us(2) * w.us(3) {
                let k = w.us(n);
                let b = if w.chance(1, 2) { Bad::Missing } else { Bad::Error };
                plan.push((k, b));
            }
            for (k, b) in &plan { w.log(|| format!("request {} ({:?}) answers {:?}", k, base.seen[*k], b)); }
            let r = attempt(&s.files, plan, pre, o);
            if r.fired.is_empty() { return viol("the compiler makes other requests the second time".into()) }
            for (k, q, b, what) in &r.fired { w.ev(*k as u64 * 64 + *q as u64 * 4 + *b as u64); w.fault(match (q, b) { (Req::Norm, _) => "normalising fails", (Req::File, Bad::Missing) => "file missing", (Req::File, _) => "reading a file fails", (_, Bad::Missing) => "foreign item missing", _ => "resolving a foreign item fails" }); let _ = what; }
            let (k, q, b, what) = &r.fired[0];
            if r.panicked { return viol(format!("request {} ({:?} {}) answered {:?}: the compiler panics: {}", k, q, what, b, r.code.err().unwrap())) }
            if r.code.is_ok() { return viol(format!("request {} ({:?} {}) answered {:?}, and the compilation succeeds", k, q, what, b)) }
            Ok("failing request")
        }
        // a file is torn, or otherwise damaged
        5 | 6 => {
            if s.files.len() < 2 { return skip("one file") }
            let used: Vec<usize> = (0..s.files.len() - 1).filter(|&i| base.seen.iter().any(|x| x.0 == Req::File && x.1 == s.files[i].0)).collect();
            if used.is_empty() { return skip("no file is imported") }
            let f = used[w.us(used.len())];
            let mut files = s.files.clone();
            let torn = kind == 5;
            let mut incomplete = false;
            if torn {
                let k = w.us(files[f].1.len() + 1);
                let k = (0..=k).rev().find(|&k| files[f].1.is_char_boundary(k)).unwrap();
                files[f].1.truncate(k);
                incomplete = !p17::complete(&files[f].1);
                w.fault("imported file torn");
                w.log(|| format!("file {} is torn after {} bytes", files[f].0, k));
            } else {
                files[f].1 = p17::damage(w, &files[f].1);
                w.fault("imported file damaged");
                w.log(|| format!("file {} is now {:?}", files[f].0, files[f].1));
            }
            w.ev(digest(files[f].1.as_bytes()));
            let r = attempt(&files, vec![], pre, o);
            match r.code {
                Err(e) if r.panicked => {
                    // what analysis does with a well-formed but wrong specification is not what this is about
                    if torn || incomplete || parse_fails(&files[f].1) { return viol(format!("a damaged import makes the compiler panic: {}", e)) }
                    Ok("damaged import, analysis stops")
                }
                Err(_) => Ok("damaged import rejected"),
                Ok(_) if incomplete => viol("a file torn within a declaration is imported without an error".into()),
                Ok(c) if torn => if items(&c) == items(code) { Ok("nothing of importance was lost") } else { viol("a torn import changes the result of the compilation".into()) },
                Ok(_) if parse_fails(&files[f].1) => viol("a file that cannot be parsed is imported without an error".into()),
                Ok(_) => Ok("still a specification"),
            }
        }
        // the way back to a file that is still being read
        7 => {
            let mut files = s.files.clone();
            let n = files.len();
            let len = 1 + w.us(3);
            // a circle of `len` files, entered from the program or from one of its files
            for i in 0..len { files.insert(n - 1, (format!("c{}", i), format!("{}import Zc{} from \"{}c{}\";\n", if w.chance(1, 2) { format!("type Zc{} = u8;\n", i) } else { String::new() }, (i + 1) % len, if w.chance(1, 3) { "./" } else { "" }, (i + 1) % len))); }
            let used: Vec<usize> = (0..n - 1).filter(|&i| base.seen.iter().any(|x| x.0 == Req::File && x.1 == files[i].0)).collect();
            let at = if used.is_empty() || w.chance(1, 3) { files.len() - 1 } else { used[w.us(used.len())] };
            let line = format!("import Zc0 as Zz from \"{}\";\n", if len == 1 && w.chance(1, 2) && at != files.len() - 1 { files[at].0.clone() } else { "c0".into() });
            let end = w.chance(1, 2);
            if end { files[at].1.push_str(&line) } else { files[at].1.insert_str(0, &line) }
            w.fault("import circle");
            w.log(|| format!("file {} imports {}", files[at].0, line.trim()));
            w.ev(at as u64 * 16 + len as u64);
            let r = attempt(&files, vec![], pre, o);
            if r.panicked { return viol(format!("an import circle makes the compiler panic: {}", r.code.err().unwrap())) }
            if r.code.is_ok() { return viol("files that import each other in a circle are compiled without an error".into()) }
            Ok("circle")
        }
        // a name that the imported file does not have
        8 => {
            if s.files.len() < 2 { return skip("one file") }
            let mut files = s.files.clone();
            let used: Vec<usize> = (0..files.len()).filter(|&i| i == files.len() - 1 || base.seen.iter().any(|x| x.0 == Req::File && x.1 == files[i].0)).collect();
            let at = used[w.us(used.len())];
            let from = w.us(files.len() - 1);
            if from >= at { return skip("no earlier file") }
            let line = format!("import {}Missing{} from \"{}\";\n", "No", if w.chance(1, 2) { " as Zz" } else { "" }, files[from].0);
            if w.chance(1, 2) { files[at].1.push_str(&line) } else { files[at].1.insert_str(0, &line) }
            w.fault("imported name missing");
            let r = attempt(&files, vec![], pre, o);
            if r.panicked { return viol(format!("importing a missing name makes the compiler panic: {}", r.code.err().unwrap())) }
            if r.code.is_ok() { return viol("importing a name that the file does not declare succeeds".into()) }
            Ok("missing name")
        }
        // more imports than needed, again and through long chains: nothing changes
        _ => {
            let mut files = s.files.clone();
            let n = files.len();
            let used: Vec<(usize, String)> = (0..n - 1).filter(|&i| base.seen.iter().any(|x| x.0 == Req::File && x.1 == files[i].0)).map(|i| (i, files[i].0.clone())).collect();
            let depth = 1 + w.us(40);
            for i in 0..depth { let prev = if i == 0 { String::new() } else { format!("import Zc{} from \"ch{}\";\n", i - 1, i - 1) }; files.insert(n - 1 + i, (format!("ch{}", i), format!("{}type Zc{} = u{};\n", prev, i, [8, 16, 32][i % 3]))); }
            let at = files.len() - 1;
            let mut lines = format!("import Zc{} as Zzz from \"ch{}\";\n", depth - 1, depth - 1);
            if !used.is_empty() { for _ in 0..w.us(3) { let (i, n) = &used[w.us(used.len())]; if let Some(l) = files[*i].1.lines().find_map(|l| l.strip_prefix("type ")) { let nm: String = l.chars().take_while(|c| c.is_alphanumeric() || *c == '_').collect(); lines += &format!("import {} as Again{} from \"{}\";\n", nm, w.us(1000), n); } } }
            files[at].1.push_str(&lines);
            w.fault("chain of imports");
            w.ev(depth as u64);
            let r = attempt(&files, vec![], pre, o);
            match r.code { Ok(_) => Ok("chain"), Err(e) => viol(format!("a chain of {} imports{}: {}", depth, if r.panicked { " makes the compiler panic" } else { " is rejected" }, e)) }
        }
    }
}
pub fn parse_fails(t: &str) -> bool { guard(|| protospec_build::parse(t).is_err()).unwrap_or(true) }
