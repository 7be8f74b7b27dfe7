//! The same input gives the same code, whatever surrounds the compilation.
use crate::common::*;
use crate::hooks;
use std::sync::{Arc, Mutex};

/// everything around one compilation that must not matter
#[derive(Clone, Debug)]
struct Around { hash: u64, noise: u64, history: Vec<(usize, bool)>, threads: usize, same: bool, period: usize, switches: u64, sched: u64, twice: bool }
fn around(w: &W, pool: usize) -> Around {
    let mut a = Around { hash: w.u64() | 1, noise: 0, history: vec![], threads: 1, same: false, period: 0, switches: 0, sched: 0, twice: false };
    w.fault("hash seed");
    if w.chance(1, 2) { a.noise = w.u64() | 1; w.fault("environment, clock, process id, addresses"); }
    for _ in 0..w.us(3) { a.history.push((w.us(pool), w.chance(1, 3))); w.fault("earlier compilation"); }
    if a.history.iter().any(|h| h.1) { w.fault("earlier compilation that failed"); }
    if w.chance(1, 2) {
        a.threads = 2 + w.us(3);
        a.same = w.chance(1, 2);
        a.period = [1, 3, 20, 150, 1000, 10000][w.us(6)];
        a.switches = [0, 1, 2, 20, 1000][4 - w.us(5)];
        a.sched = w.u64();
        w.fault("concurrent compilations");
    }
    a.twice = w.chance(1, 4);
    a
}
fn go(s: &Src, o: &Opt) -> String { match compile(s.main(), &|| front(&s.files), o) { Comp::Code(c) => c, Comp::Error(e) => format!("ERROR {}", e), Comp::Panic(p) => format!("PANIC {}", p) } }
/// one compilation of `s` in its own thread, in given surroundings
fn run(w: &W, s: &Src, o: &Opt, a: &Around, others: &[Src]) -> Vec<(usize, String)> {
    hooks::seed_random(a.hash);
    hooks::noise(a.noise);
    hooks::seed_addresses(a.noise);
    hooks::begin(a.sched, if a.period == 0 { 1 << 40 } else { a.period }, a.switches, a.threads);
    let out: Arc<Mutex<Vec<(usize, String)>>> = Default::default();
    let mut hs = vec![];
    for i in 0..a.threads {
        let target = if i == 0 || a.same { 0 } else { 1 + (i - 1) % others.len().max(1) };
        let mut jobs: Vec<(Src, bool, usize)> = vec![];
        if i == 0 { for &(k, fail) in &a.history { let mut h = others[k % others.len()].clone(); if fail { let t = &mut h.files.last_mut().unwrap().1; let n = t.len() / 2; let n = (0..=n).rev().find(|&n| t.is_char_boundary(n)).unwrap(); t.truncate(n); } jobs.push((h, false, 0)); } }
        let t = if target == 0 { s.clone() } else { others[(target - 1) % others.len()].clone() };
        jobs.push((t.clone(), true, target));
        if a.twice { jobs.push((t, true, target)); }
        let (o, out) = (*o, out.clone());
        hs.push(std::thread::Builder::new().stack_size(64 << 20).spawn(move || {
            let r = hooks::managed(i, || { let mut r = vec![]; for (j, keep, target) in &jobs { let c = go(j, &o); if *keep { r.push((*target, c)) } } r });
            out.lock().unwrap().extend(r);
        }).unwrap());
    }
    hooks::start();
    for h in hs { h.join().unwrap() }
    hooks::noise(0);
    let st = hooks::stats();
    w.ev(st.trace); w.ev(a.hash);
    w.steps.set(w.steps.get() + st.steps);
    if st.switches > 0 { *w.faults.borrow_mut().entry("thread switches").or_insert(0) += st.switches }
    let v = std::mem::take(&mut *out.lock().unwrap());
    v
}
fn first_diff(a: &str, b: &str) -> String { let i = a.bytes().zip(b.bytes()).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len())); let st = |s: &str| { let b = s.as_bytes(); String::from_utf8_lossy(&b[i.saturating_sub(60)..(i + 60).min(b.len())]).to_string() }; format!("at byte {}: ...{}... and ...{}...", i, st(a), st(b)) }
pub fn scenario(w: &W) -> Res {
    let modular = w.chance(1, 3);
    let s = source(w, false, modular);
    let o = Opt::pick(w);
    let others: Vec<Src> = (0..1 + w.us(3)).map(|_| source(w, false, false)).collect();
    w.files.replace(s.text());
    w.log(|| format!("compile {} ({} files) with {:?}", s.name, s.files.len(), o));
    w.ev(digest(s.text().as_bytes()));
    let base = Around { hash: 99, noise: 0, history: vec![], threads: 1, same: false, period: 0, switches: 0, sched: 0, twice: false };
    let want = run(w, &s, &o, &base, &others).remove(0).1;
    if want.starts_with("PANIC") { return if want.contains("async not implemented") { skip("no asynchronous code for base64") } else { viol(want) } }
    if want.starts_with("ERROR") { return viol(format!("a valid specification is rejected: {}", want)) }
    let mut wants: Vec<Option<String>> = vec![None; others.len() + 1];
    wants[0] = Some(want);
    for _ in 0..1 + w.us(2) {
        let a = around(w, others.len());
        w.log(|| format!("again: {:?}", a));
        for (k, got) in run(w, &s, &o, &a, &others) {
            let want = match &wants[k] { Some(x) => x.clone(), None => { let x = run(w, &others[k - 1], &o, &base, &others).remove(0).1; wants[k] = Some(x.clone()); x } };
            if got != want { return viol(format!("the same specification gave different code, {} (surroundings {:?})", first_diff(&want, &got), a)) }
        }
    }
    if w.chance(1, 12) {
        // a process of its own
        w.fault("other process");
        let seed = w.u64() | 1;
        let want = wants[0].as_ref().unwrap();
        let f = format!("/tmp/compsim-{}.json", std::process::id());
        std::fs::write(&f, psmodel::json::obj(vec![("files", psmodel::json::J::Arr(s.files.iter().map(|(a, b)| psmodel::json::J::Arr(vec![a.as_str().into(), b.as_str().into()])).collect())), ("opt", psmodel::json::J::Arr(vec![o.is_async.into(), o.anyhow.into(), o.debug.into(), o.derives.into()])), ("seed", psmodel::json::J::Str(seed.to_string()))]).text()).unwrap();
        let out = std::process::Command::new(std::env::current_exe().unwrap()).arg("--compile").arg(&f).env_clear().env("LANG", "xx").output().unwrap();
        let _ = std::fs::remove_file(&f);
        let got = String::from_utf8_lossy(&out.stdout).to_string();
        if !out.status.success() { return viol(format!("the same compilation ends differently in another process: {:?}", out.status)) }
        if &got != want { return viol(format!("another process generated different code, {}", first_diff(want, &got))) }
    }
    Ok("same code")
}
/// `--compile FILE`: one compilation, the code on standard output
pub fn child(f: &str) {
    use psmodel::json::J;
    let j = J::parse(&std::fs::read_to_string(f).unwrap()).unwrap();
    let files: Vec<(String, String)> = j.get("files").unwrap().arr().iter().map(|p| (p.arr()[0].str().to_string(), p.arr()[1].str().to_string())).collect();
    let b: Vec<bool> = j.get("opt").unwrap().arr().iter().map(|x| matches!(x, J::Bool(true))).collect();
    hooks::seed_random(j.get("seed").unwrap().str().parse().unwrap());
    let s = Src { name: String::new(), files, foreign: true, modular: None };
    let o = Opt { is_async: b[0], anyhow: b[1], debug: b[2], derives: b[3] };
    let c = std::thread::Builder::new().stack_size(64 << 20).spawn(move || go(&s, &o)).unwrap().join().unwrap();
    use std::io::Write;
    std::io::stdout().write_all(c.as_bytes()).unwrap();
}
