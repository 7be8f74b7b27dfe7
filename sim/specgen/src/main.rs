//! Compiles generated specifications with the real compiler and lays out crates with glue for the simulator.
mod resolver;
mod glue;
use psmodel::genspec::*;
use psmodel::json::*;
use psmodel::*;
use std::fmt::Write as _;
use std::path::Path;

fn arg(n: &str) -> Option<String> { let a: Vec<String> = std::env::args().collect(); a.iter().position(|x| x == n).and_then(|i| a.get(i + 1).cloned()) }
pub const VISIBLE: &str = "// visible: ";
const MX: [&str; 8] = ["mx_u16le", "mx_enum1", "mx_bits1", "mx_utf8n", "mx_v32", "mx_u24", "mx_strctarg", "mx_tagt"];
fn write_if(p: &Path, s: &str) { if std::fs::read_to_string(p).ok().as_deref() != Some(s) { std::fs::create_dir_all(p.parent().unwrap()).unwrap(); std::fs::write(p, s).unwrap(); } }
fn main() {
    let out = arg("--out").expect("--out");
    let sim = arg("--sim").expect("--sim");
    let seed: u64 = arg("--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let count: u64 = arg("--count").and_then(|s| s.parse().ok()).unwrap_or(40);
    let crates: usize = arg("--crates").and_then(|s| s.parse().ok()).unwrap_or(8);
    let want_async = arg("--async").map(|s| s == "1").unwrap_or(false);
    let profiles: Vec<String> = arg("--profiles").map(|s| s.split(',').map(|x| x.to_string()).collect()).unwrap_or(PROFILES.iter().map(|p| p.0.to_string()).collect());
    let with_matrix = arg("--matrix").map(|s| s == "1").unwrap_or(true);
    let skip: Vec<String> = arg("--skip").map(|s| s.split(',').map(|x| x.to_string()).collect()).unwrap_or_default();
    let only = arg("--only");
    let out = Path::new(&out);
    let mut cases = if with_matrix { matrix() } else { vec![] };
    if let Some(dir) = arg("--corpus") {
        let mut fs: Vec<_> = std::fs::read_dir(dir).unwrap().map(|e| e.unwrap().path()).filter(|p| p.extension().map(|x| x == "pspec").unwrap_or(false)).collect();
        fs.sort();
        for f in fs {
            let text = std::fs::read_to_string(&f).unwrap();
            match parse::parse(&text) {
                Ok(spec) => { let name = format!("c_{}", f.file_stem().unwrap().to_str().unwrap()); let async_ok = !uses_opaque(&spec) && !text.contains("// sync"); cases.push(Case { name, text, async_ok, ..case("x", spec) }) }
                Err(e) => { eprintln!("corpus {} does not parse in the model: {:?}", f.display(), e); std::process::exit(3) }
            }
        }
    }
    let ps: Vec<_> = PROFILES.iter().filter(|p| profiles.iter().any(|x| x == p.0)).collect();
    for i in 0..count { if ps.is_empty() { break; } let (n, p) = ps[(i % ps.len() as u64) as usize]; cases.push(random(tape::mix(seed, i), &format!("r{}_{}_{}", seed, i, n), *p)); }
    if let Some(dir) = arg("--extra") { // replay: exactly this text
        let text = std::fs::read_to_string(&dir).unwrap();
        let name = arg("--extra-name").unwrap_or("replay".into());
        match parse::parse(&text) { Ok(spec) => { let async_ok = !uses_opaque(&spec) && !text.contains("// sync"); cases = vec![Case { name, text, async_ok, ..case("x", spec) }] } Err(e) => { eprintln!("{:?}", e); std::process::exit(3) } }
    }
    let mut modular = 0;
    if arg("--modular").map(|s| s == "1").unwrap_or(false) {
        cases.retain(|c| !c.name.starts_with("mx_") || MX.iter().any(|m| *m == c.name));
        for (i, c) in cases.iter_mut().enumerate() {
            if let Some(m) = modular::split(&c.spec, &mut Tape::seeded(tape::mix(seed ^ 0x6d6f64, i as u64))) {
                let mut v: Vec<&str> = m.visible.iter().map(|s| &**s).collect();
                v.sort();
                c.text = format!("{}{}\n{}", VISIBLE, v.join(" "), m.text(&c.text));
                modular += 1;
            }
        }
        // a program that needs nothing has nothing to run
        cases.retain(|c| glue::visible(&c.text).map(|v| !v.is_empty()).unwrap_or(true));
    }
    if arg("--extra").is_none() {
        for (i, c) in cases.iter_mut().enumerate() { c.text = psmodel::layout::layout_all(&c.text, &mut Tape::seeded(tape::mix(seed ^ 0x6c6179, i as u64))); }
    }
    cases.retain(|c| !skip.iter().any(|s| *s == c.name) && only.as_ref().map(|o| *o == c.name).unwrap_or(true));
    let mut fails = vec![];
    let mut good: Vec<(Case, String, bool, usize)> = vec![];
    std::panic::set_hook(Box::new(|_| ()));
    let sync_only = arg("--sync-only").is_some();
    let desc = |c: &Case, a: bool| vec![("spec", c.name.as_str().into()), ("async", a.into()), ("text", c.text.as_str().into())];
    for c in cases {
        let a = want_async && c.async_ok && !sync_only;
        std::fs::write(out.join("current.json"), obj(desc(&c, a)).text()).unwrap();
        let opt = resolver::variant(&c.name);
        match resolver::compile(&c.text, a, opt) {
            Ok(src) => { let mut t = String::new(); glue::spec(&c, &src, a, opt.0, &mut t); let n = t.len(); good.push((c, t, a, n)); }
            Err(e) => { let mut d = desc(&c, a); d.push(("error", e.into())); fails.push(obj(d)); }
        }
    }
    let _ = std::fs::remove_file(out.join("current.json"));
    std::fs::write(out.join("specs.json"), J::Arr(good.iter().map(|g| obj(desc(&g.0, g.2))).collect()).text()).unwrap();
    // spread over crates by size
    let mut order: Vec<usize> = (0..good.len()).collect();
    order.sort_by_key(|&i| std::cmp::Reverse(good[i].3));
    let mut load = vec![0usize; crates];
    let mut libs = vec![String::new(); crates];
    let mut regs = vec![String::new(); crates];
    let mut keep: Vec<Vec<String>> = vec![vec![]; crates];
    for i in order {
        let k = (0..crates).min_by_key(|&k| load[k]).unwrap();
        let (c, t, a, n) = &good[i];
        load[k] += n;
        write_if(&out.join(format!("gen{}/src/s_{}.rs", k, c.name)), t);
        keep[k].push(format!("s_{}.rs", c.name));
        let _ = writeln!(libs[k], "pub mod s_{};", c.name);
        let _ = writeln!(regs[k], "    simrt::SpecMod {{ name: {:?}, text: {:?}, codecs: s_{}::CODECS, has_async: {} }},", c.name, c.text, c.name, a);
    }
    for k in 0..crates {
        write_if(&out.join(format!("gen{}/src/lib.rs", k)), &format!("#![allow(warnings)]\n{}pub static SPECS: &[simrt::SpecMod] = &[\n{}];\n", libs[k], regs[k]));
        write_if(&out.join(format!("gen{}/Cargo.toml", k)), &format!("[package]\nname = \"gen{}\"\nversion = \"0.1.0\"\nedition = \"2021\"\n[dependencies]\nsimrt = {{ path = \"{}/rt\" }}\ntokio = {{ version = \"1\", default-features = false, features = [\"io-util\"] }}\nflate2 = \"1\"\nanyhow = \"1\"\nbase64 = {{ path = \"{}/b64\" }}\nasync-recursion = {{ path = \"{}/asyncrec\" }}\n", k, sim, sim, sim));
        for e in std::fs::read_dir(out.join(format!("gen{}/src", k))).unwrap() { let e = e.unwrap(); let n = e.file_name().into_string().unwrap(); if n.starts_with("s_") && !keep[k].contains(&n) { let _ = std::fs::remove_file(e.path()); } }
    }
    let gens: Vec<String> = (0..crates).map(|k| format!("\"gen{}\"", k)).collect();
    write_if(&out.join("Cargo.toml"), &format!("[workspace]\nresolver = \"2\"\nmembers = [{}, \"runner\"]\n[profile.dev]\ndebug = 0\nopt-level = 0\nincremental = false\n[profile.dev.package.psmodel]\nopt-level = 2\n[profile.dev.package.simrt]\nopt-level = 1\n[profile.dev.package.miniz_oxide]\nopt-level = 2\n[profile.dev.package.runner]\nopt-level = 1\n", gens.join(", ")));
    let mut deps = String::new();
    for k in 0..crates { let _ = writeln!(deps, "gen{} = {{ path = \"../gen{}\" }}", k, k); }
    write_if(&out.join("runner/Cargo.toml"), &format!("[package]\nname = \"runner\"\nversion = \"0.1.0\"\nedition = \"2021\"\n[[bin]]\nname = \"runner\"\npath = \"{}/runner/src/main.rs\"\n[dependencies]\nsimrt = {{ path = \"{}/rt\" }}\npsmodel = {{ path = \"{}/model\" }}\n{}", sim, sim, sim, deps));
    let mut reg = String::from("pub fn all() -> Vec<&'static simrt::SpecMod> { let mut v: Vec<&'static simrt::SpecMod> = vec![];\n");
    for k in 0..crates { let _ = writeln!(reg, "v.extend(gen{}::SPECS.iter());", k); }
    reg.push_str("v.sort_by_key(|s| s.name); v }\n");
    write_if(&out.join("runner/registry.rs"), &reg);
    let n = good.len();
    std::fs::write(out.join("fails.json"), J::Arr(fails.clone()).text()).unwrap();
    println!("modular {}", modular);
    println!("specs {} rejected {} types {}", n, fails.len(), good.iter().map(|g| g.0.spec.types().count()).sum::<usize>());
    for f in &fails { println!("REJECTED {} {}", f.get("spec").unwrap().str(), f.get("error").unwrap().str()); }
}
