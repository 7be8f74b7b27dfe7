//! Supervisor: starts the workers, turns crashes and hangs into violations, merges what they found.
use crate::*;
use psmodel::json::*;
use std::collections::{BTreeMap, HashSet};
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};

fn me(args: &[String]) -> Command { let mut c = Command::new(std::env::current_exe().unwrap()); c.args(args).stdout(Stdio::null()); c }
fn wait(c: &mut Child, d: Duration) -> Option<std::process::ExitStatus> { let t = Instant::now(); loop { if let Ok(Some(s)) = c.try_wait() { return Some(s); } if t.elapsed() > d { let _ = c.kill(); let _ = c.wait(); return None; } std::thread::sleep(Duration::from_millis(5)); } }
/// None: the run ended by itself; Some: it crashed or hung
fn crashes(args: &[String], secs: u64) -> Option<String> {
    let mut c = me(args).stderr(Stdio::null()).spawn().unwrap();
    match wait(&mut c, Duration::from_secs(secs)) { None => Some(format!("did not finish within {} s", secs)), Some(s) => if s.code().is_none() || s.code() == Some(134) { use std::os::unix::process::ExitStatusExt; Some(format!("the process died (signal {})", s.signal().unwrap_or(6))) } else { None } }
}
fn tape_arg(dir: &str, t: &[u64]) -> String { let f = format!("{}/cand.json", dir); std::fs::write(&f, nums(t).text()).unwrap(); f }
pub fn run() {
    let prop = arg("--prop").unwrap();
    let (seed, iters, secs, workers) = (num("--seed", 1), num("--iters", 1000), num("--secs", 20), num("--workers", 8));
    let out = arg("--out").unwrap();
    let dir = format!("{}.d", out);
    let _ = std::fs::remove_dir_all(&dir);
    std::fs::create_dir_all(&dir).unwrap();
    let mut pass = vec![];
    if let Some(s) = arg("--spec") { pass.push("--spec".to_string()); pass.push(s) }
    if flag("--all") { pass.push("--all".into()) }
    let s = |x: &str| x.to_string();
    let t0 = Instant::now();
    let mut crash: Vec<(u64, String)> = vec![];
    let mut results = vec![];
    let mut kids = vec![];
    for k in 0..workers {
        let f = format!("{}/w{}.json", dir, k);
        let mut a = vec![s("--worker"), s("--prop"), prop.clone(), s("--seed"), seed.to_string(), s("--start"), k.to_string(), s("--stride"), workers.to_string(), s("--iters"), iters.to_string(), s("--secs"), secs.to_string(), s("--out"), f.clone()];
        a.extend(pass.clone());
        kids.push((me(&a).spawn().unwrap(), f, 0u64, Instant::now()));
    }
    let mut live = kids.len();
    let mut done = vec![false; kids.len()];
    while live > 0 {
        std::thread::sleep(Duration::from_millis(20));
        for (k, (c, f, last, since)) in kids.iter_mut().enumerate() {
            if done[k] { continue }
            let cur = std::fs::read(format!("{}.status", f)).ok().filter(|b| b.len() == 8).map(|b| u64::from_le_bytes(b[..].try_into().unwrap())).unwrap_or(0);
            if cur != *last { *last = cur; *since = Instant::now(); }
            match c.try_wait().unwrap() {
                Some(st) if st.success() => { results.push(J::parse(&std::fs::read_to_string(&*f).unwrap()).expect("worker result")); done[k] = true; live -= 1; }
                Some(st) => { if st.code() == Some(2) || (st.code().is_some() && st.code() != Some(134)) { eprintln!("worker {} failed: {:?} at iteration {}", k, st, cur); std::process::exit(2); } crash.push((cur, format!("{:?}", st))); done[k] = true; live -= 1; }
                // the worker shrinks for at most 45 s, one iteration takes milliseconds
                None => if since.elapsed() > Duration::from_secs(75) { let _ = c.kill(); let _ = c.wait(); crash.push((cur, s("hang"))); done[k] = true; live -= 1; }
            }
        }
    }
    let mut viols: Vec<J> = vec![];
    // a worker that died while it shrank a violation: the violation stands as it was found
    for f in kids.iter().map(|k| &k.1) { if let Some(v) = std::fs::read_to_string(format!("{}.viol", f)).ok().and_then(|t| J::parse(&t)) { let it = v.get("iteration").map(|x| x.num() as u64).unwrap_or(0); crash.retain(|c| c.0 != it); viols.push(v) } }
    crash.sort();
    // ended from outside (memory, a machine that stalled): what was left to that worker is not covered
    let mut lost = 0u64;
    for (it, how) in crash.iter().take(2) {
        // run it again alone, with the tape written out as it grows
        let tf = format!("{}/tape.bin", dir);
        let mut a = vec![s("--one"), s("--prop"), prop.clone(), s("--seed"), seed.to_string(), s("--iter"), it.to_string(), s("--trace-tape"), tf.clone()];
        a.extend(pass.clone());
        let Some(what) = crashes(&a, 60) else { eprintln!("iteration {} ended its worker ({}) but not alone", it, how); if how == "hang" || how.contains("signal: 9") { lost += 1; continue } std::process::exit(2) };
        let mut best: Vec<u64> = std::fs::read(&tf).unwrap_or_default().chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).collect();
        let hang = what.starts_with("did");
        let end = Instant::now() + Duration::from_secs(60);
        let mut tries = 0;
        let mut size = best.len() / 2;
        while size >= 1 && Instant::now() < end && tries < 300 {
            let mut i = 1;
            while i < best.len() && Instant::now() < end {
                let j = (i + size).min(best.len());
                let mut c = best.clone();
                c.drain(i..j);
                tries += 1;
                let mut a = vec![s("--one"), s("--prop"), prop.clone(), s("--tape"), tape_arg(&dir, &c)];
                a.extend(pass.clone());
                if crashes(&a, if hang { 8 } else { 30 }).map(|w| w.starts_with("did") == hang).unwrap_or(false) { best = c; } else { i += size; }
            }
            size /= 2;
        }
        // which specification: the first choice on the tape
        let specs = crate::work::specs();
        let k = (best.first().copied().unwrap_or(0) % specs.len() as u64) as usize;
        let mut best2 = best.clone();
        if best2.is_empty() { best2.push(0) }
        viols.push(obj(vec![("property", prop.as_str().into()), ("seed", J::Str(seed.to_string())), ("iteration", (*it).into()), ("spec", specs[k].m.name.into()), ("async", specs[k].m.has_async.into()), ("text", specs[k].m.text.into()), ("message", format!("the run brings the process down: {}", what).into()), ("crash", true.into()), ("log", J::Arr(vec![])), ("tape", nums(&best2))]));
    }
    let (mut runs, mut now, mut calls, mut re, mut dc) = (0.0, 0.0, 0.0, 0.0, 0.0);
    let mut classes: BTreeMap<String, u64> = BTreeMap::new();
    let mut faults: BTreeMap<String, u64> = BTreeMap::new();
    let (mut traces, mut shapes, mut sp): (HashSet<String>, HashSet<String>, HashSet<String>) = Default::default();
    let mut samples = vec![];
    let mut nondet = vec![];
    for r in &results {
        let n = |k: &str| r.get(k).map(|x| x.num()).unwrap_or(0.0);
        runs += n("runs"); now += n("virtual_time"); calls += n("stream_calls"); re += n("rechecks"); dc += n("decisions");
        for (m, k) in [(&mut classes, "classes"), (&mut faults, "faults")] { if let Some(J::Obj(v)) = r.get(k) { for (a, b) in v { *m.entry(a.clone()).or_insert(0) += b.num() as u64; } } }
        for (m, k) in [(&mut traces, "traces"), (&mut shapes, "shapes"), (&mut sp, "specs")] { for x in r.get(k).unwrap().arr() { m.insert(x.str().to_string()); } }
        if samples.len() < 6 { samples.extend(r.get("samples").unwrap().arr().iter().take(1).cloned()); }
        nondet.extend(r.get("nondeterministic").unwrap().arr().iter().cloned());
        viols.extend(r.get("violations").unwrap().arr().iter().cloned());
    }
    viols.sort_by_key(|v| (v.get("tape").is_none(), v.get("iteration").map(|x| x.num() as u64)));
    let j = obj(vec![("runs", runs.into()), ("virtual_time", now.into()), ("stream_calls", calls.into()), ("decisions", dc.into()), ("rechecks", re.into()), ("nondeterministic", J::Arr(nondet)), ("classes", (&classes).into()), ("faults", (&faults).into()), ("distinct_traces", traces.len().into()), ("distinct_fault_mixes", shapes.len().into()), ("specs", sp.len().into()), ("registered_specs", registry::all().len().into()), ("samples", J::Arr(samples)), ("workers_lost", lost.into()), ("violations", J::Arr(viols)), ("wall", t0.elapsed().as_secs_f64().into())]);
    std::fs::write(&out, j.text()).unwrap();
    let _ = std::fs::remove_dir_all(&dir);
}
/// replays a violation exactly; exit 1 when it shows again
pub fn replay() {
    crate::ops::hook();
    let f = arg("--replay").unwrap();
    let j = J::parse(&std::fs::read_to_string(&f).unwrap()).unwrap();
    let prop = j.get("property").unwrap().str().to_string();
    let specs = crate::work::specs();
    let mut tape = j.get("tape").unwrap().tape();
    // the first choice picks the specification
    let name = j.get("spec").unwrap().str();
    if let Some(i) = specs.iter().position(|s| s.m.name == name) { if tape.is_empty() { tape.push(0) } tape[0] = i as u64; }
    if j.get("crash").is_some() {
        let a = vec!["--one".to_string(), "--prop".into(), prop.clone(), "--tape".into(), tape_arg("/tmp", &tape)];
        match crashes(&a, 60) { Some(w) => { println!("{}", w); std::process::exit(1) } None => { println!("not reproduced"); std::process::exit(0) } }
    }
    crate::ops::log_on();
    let r = crate::work::run(&prop, &specs, psmodel::tape::Tape::replay(tape));
    for l in crate::ops::log_take() { println!("  {}", l); }
    match r.out { crate::scen::Out::Viol(m) => { println!("{}", m); println!("trace {:016x} recorded {}", r.trace, j.get("trace").map(|x| x.str()).unwrap_or("")); std::process::exit(1) } crate::scen::Out::Ok(l) => println!("not reproduced: ok {}", l), crate::scen::Out::Skip(l) => println!("not reproduced: {}", l) }
}
