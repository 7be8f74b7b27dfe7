//! Supervisor and workers: crashes and hangs are violations, every violation is shrunk and can be replayed.
use crate::common::*;
use crate::*;
use psmodel::json::*;
use psmodel::tape::mix;
use psmodel::*;
use std::collections::{BTreeMap, HashSet};
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};

pub struct Ran { pub out: Out, pub rec: Vec<u64>, pub used: usize, pub faults: BTreeMap<&'static str, u64>, pub trace: u64, pub steps: u64, pub files: String, pub log: Vec<String> }
pub fn run_one(prop: &str, t: Tape, log: bool) -> Ran {
    let w = W::new(t);
    if log { *w.log.borrow_mut() = Some(vec![]) }
    hooks::seed_random(0x5eed);
    hooks::disk_reset();
    let r = guard(|| match prop { "P14" => p14::scenario(&w), "P15" => p15::scenario(&w), "P16" => p16::scenario(&w), "P17" => p17::scenario(&w), "P21" => p21::scenario(&w), _ => panic!("no scenario for {}", prop) });
    let out = match r { Ok(Ok(l)) => Out::Ok(l), Ok(Err(o)) => o, Err(m) => { eprintln!("HARNESS: scenario panicked: {}", m); std::process::exit(2) } };
    let t = w.t.borrow();
    let x = Ran { out, rec: t.rec.clone(), used: t.used(), faults: w.faults.borrow().clone(), trace: w.trace.get(), steps: w.steps.get(), files: w.files.borrow().clone(), log: w.log.borrow_mut().take().unwrap_or_default() };
    x
}
pub fn iter_seed(prop: &str, seed: u64, i: u64) -> u64 { let p = prop.bytes().fold(77u64, |a, b| mix(a, b as u64)); mix(mix(p, seed), i) }
fn viol(o: &Out) -> Option<&str> { if let Out::Viol(m) = o { Some(m) } else { None } }
/// the kind of violation: its message without the particulars
fn kind_of(m: &str) -> String { m.chars().filter(|c| !c.is_ascii_digit()).take(28).collect() }
fn shrink(prop: &str, rec: Vec<u64>, secs: u64, bad: &mut dyn FnMut(&Vec<u64>) -> Option<usize>) -> Vec<u64> {
    let _ = prop;
    let end = Instant::now() + Duration::from_secs(secs);
    let mut best = rec;
    loop {
        let before = (best.len(), best.iter().filter(|x| **x > 0).count());
        let mut size = (best.len() / 2).max(1);
        loop {
            let mut i = 0;
            while i < best.len() {
                if Instant::now() > end { return best }
                let j = (i + size).min(best.len());
                let mut c = best.clone();
                c.drain(i..j);
                if let Some(u) = bad(&c) { c.truncate(u.max(1)); best = c; continue }
                if best[i..j].iter().any(|x| *x != 0) { let mut c = best.clone(); for x in &mut c[i..j] { *x = 0 } if let Some(u) = bad(&c) { c.truncate(u.max(1)); best = c; } }
                i += size;
            }
            if size == 1 { break }
            size /= 2;
        }
        for i in 0..best.len() {
            if i >= best.len() { break }
            while best[i] > 1 {
                if Instant::now() > end { return best }
                let mut c = best.clone();
                c[i] /= 2;
                if let Some(u) = bad(&c) { c.truncate(u.max(1)); best = c; if i >= best.len() { break } } else { break }
            }
        }
        while best.len() > 1 && best.last() == Some(&0) { best.pop(); }
        if (best.len(), best.iter().filter(|x| **x > 0).count()) == before { return best }
    }
}
fn report(prop: &str, rec: &Vec<u64>, seed: u64, i: u64) -> J {
    let r = run_one(prop, Tape::replay(rec.clone()), true);
    obj(vec![("kind", "comp".into()), ("property", prop.into()), ("seed", J::Str(seed.to_string())), ("iteration", i.into()), ("spec", "".into()), ("text", r.files.as_str().into()), ("message", viol(&r.out).unwrap_or("").into()), ("trace", J::Str(format!("{:016x}", r.trace))), ("faults", J::Obj(r.faults.iter().map(|(k, v)| (k.to_string(), (*v).into())).collect())), ("log", J::Arr(r.log.into_iter().map(|s| s.chars().take(1500).collect::<String>().into()).collect())), ("tape", nums(rec))])
}
pub fn worker() {
    quiet();
    let prop = arg("--prop").unwrap();
    let (seed, start, stride, iters, secs) = (num("--seed", 1), num("--start", 0), num("--stride", 1), num("--iters", 1000), num("--secs", 20));
    let out = arg("--out").unwrap();
    let status = std::fs::OpenOptions::new().create(true).write(true).open(format!("{}.status", out)).unwrap();
    let t0 = Instant::now();
    let (mut runs, mut steps, mut rechecks, mut decisions) = (0u64, 0u64, 0u64, 0u64);
    let mut classes: BTreeMap<String, u64> = BTreeMap::new();
    let mut faults: BTreeMap<String, u64> = BTreeMap::new();
    let (mut traces, mut texts, mut kinds): (HashSet<u64>, HashSet<u64>, HashSet<String>) = Default::default();
    let (mut samples, mut nondet, mut viols) = (vec![], vec![], vec![]);
    // the first run of a process sets up its tables
    let _ = run_one(&prop, Tape::replay(vec![]), false);
    let mut i = start;
    while i < iters && t0.elapsed().as_secs() < secs {
        use std::os::unix::fs::FileExt;
        let _ = status.write_at(&i.to_le_bytes(), 0);
        let r = run_one(&prop, Tape::seeded(iter_seed(&prop, seed, i)), false);
        runs += 1; steps += r.steps; decisions += r.rec.len() as u64;
        let l = match &r.out { Out::Ok(l) => format!("ok: {}", l), Out::Skip(l) => format!("nothing to judge: {}", l), Out::Viol(_) => "violation".into() };
        if matches!(r.out, Out::Ok(_)) { traces.insert(r.trace); texts.insert(digest(r.files.as_bytes())); }
        *classes.entry(l.clone()).or_insert(0) += 1;
        for (k, v) in &r.faults { *faults.entry(k.to_string()).or_insert(0) += v }
        if i % 97 == start % 97 {
            rechecks += 1;
            let q = run_one(&prop, Tape::seeded(iter_seed(&prop, seed, i)), false);
            if q.trace != r.trace || q.rec != r.rec || viol(&q.out) != viol(&r.out) { nondet.push(J::from(i)) }
        }
        if samples.len() < 3 && matches!(r.out, Out::Ok(_)) && runs > 5 { samples.push((i, r.rec.clone(), l)) }
        if let Some(m) = viol(&r.out) {
            let kind = kind_of(m);
            if kinds.insert(kind.clone()) && viols.len() < 12 {
                let mut rec = r.rec.clone();
                rec.truncate(r.used.max(1));
                // shrinking can bring the process down
                std::fs::write(format!("{}.viol", out), report(&prop, &rec, seed, i).text()).unwrap();
                let rec = shrink(&prop, rec, 15, &mut |c| { let r = run_one(&prop, Tape::replay(c.clone()), false); if viol(&r.out).map(|m| kind_of(m) == kind).unwrap_or(false) { Some(r.used) } else { None } });
                let _ = std::fs::remove_file(format!("{}.viol", out));
                viols.push(report(&prop, &rec, seed, i));
            } else { viols.push(obj(vec![("iteration", i.into()), ("message", m.into())])) }
            if !flag("--all") { break }
        }
        i += stride;
    }
    let samples: Vec<J> = samples.into_iter().map(|(i, rec, l)| { let r = run_one(&prop, Tape::replay(rec), true); obj(vec![("iteration", i.into()), ("outcome", l.into()), ("steps", J::Arr(r.log.into_iter().take(10).map(|s| s.chars().take(300).collect::<String>().into()).collect()))]) }).collect();
    let j = obj(vec![("runs", runs.into()), ("virtual_time", steps.into()), ("decisions", decisions.into()), ("rechecks", rechecks.into()), ("nondeterministic", J::Arr(nondet)), ("classes", (&classes).into()), ("faults", (&faults).into()), ("traces", nums(&traces.into_iter().collect::<Vec<_>>())), ("texts", nums(&texts.into_iter().collect::<Vec<_>>())), ("samples", J::Arr(samples)), ("violations", J::Arr(viols))]);
    std::fs::write(&out, j.text()).unwrap();
}
pub fn one() {
    quiet();
    let prop = arg("--prop").unwrap();
    let t = match arg("--tape") { Some(f) => Tape::replay(J::parse(&std::fs::read_to_string(f).unwrap()).unwrap().tape()), None => { let mut t = Tape::seeded(iter_seed(&prop, num("--seed", 1), num("--iter", 0))); if let Some(f) = arg("--trace-tape") { t.sink(&f) } t } };
    let r = run_one(&prop, t, false);
    match r.out { Out::Viol(m) => { println!("{}", m); std::process::exit(1) } _ => std::process::exit(0) }
}
fn me(args: &[String]) -> Command { let mut c = Command::new(std::env::current_exe().unwrap()); c.args(args).stdout(Stdio::null()); c }
fn wait(c: &mut Child, d: Duration) -> Option<std::process::ExitStatus> { let t = Instant::now(); loop { if let Ok(Some(s)) = c.try_wait() { return Some(s) } if t.elapsed() > d { let _ = c.kill(); let _ = c.wait(); return None } std::thread::sleep(Duration::from_millis(5)) } }
fn crashes(args: &[String], secs: u64) -> Option<String> {
    let mut c = me(args).stderr(Stdio::null()).spawn().unwrap();
    match wait(&mut c, Duration::from_secs(secs)) { None => Some(format!("did not finish within {} s", secs)), Some(s) => if s.code().is_none() || s.code() == Some(134) { use std::os::unix::process::ExitStatusExt; Some(format!("the process died (signal {})", s.signal().unwrap_or(6))) } else { None } }
}
fn tape_arg(dir: &str, t: &[u64]) -> String { let f = format!("{}/cand.json", dir); std::fs::write(&f, nums(t).text()).unwrap(); f }
pub fn run() {
    let prop = arg("--prop").unwrap();
    let (seed, iters, secs, workers) = (num("--seed", 1), num("--iters", 1000), num("--secs", 20), num("--workers", 8));
    let out = arg("--out").unwrap();
    let dir = format!("{}.d", out);
    let _ = std::fs::remove_dir_all(&dir);
    std::fs::create_dir_all(&dir).unwrap();
    let s = |x: &str| x.to_string();
    let t0 = Instant::now();
    let (mut crash, mut results, mut kids) = (vec![], vec![], vec![]);
    for k in 0..workers {
        let f = format!("{}/w{}.json", dir, k);
        let mut a = vec![s("--worker"), s("--prop"), prop.clone(), s("--seed"), seed.to_string(), s("--start"), k.to_string(), s("--stride"), workers.to_string(), s("--iters"), iters.to_string(), s("--secs"), secs.to_string(), s("--out"), f.clone()];
        if flag("--all") { a.push("--all".into()) }
        kids.push((me(&a).spawn().unwrap(), f, u64::MAX, Instant::now(), false));
    }
    while kids.iter().any(|k| !k.4) {
        std::thread::sleep(Duration::from_millis(20));
        for (k, (c, f, last, since, done)) in kids.iter_mut().enumerate() {
            if *done { continue }
            let cur = std::fs::read(format!("{}.status", f)).ok().filter(|b| b.len() == 8).map(|b| u64::from_le_bytes(b[..].try_into().unwrap())).unwrap_or(0);
            if cur != *last { *last = cur; *since = Instant::now() }
            match c.try_wait().unwrap() {
                Some(st) if st.success() => { results.push(J::parse(&std::fs::read_to_string(&*f).unwrap()).expect("worker result")); *done = true }
                Some(st) => { if st.code() == Some(2) || (st.code().is_some() && st.code() != Some(134)) { eprintln!("worker {} failed: {:?} at iteration {}", k, st, cur); std::process::exit(2) } crash.push((cur, format!("{:?}", st))); *done = true }
                // a worker shrinks for at most 15 s (a hang of the build step: 20 s more); one iteration takes milliseconds
                None => if since.elapsed() > Duration::from_secs(60) { let _ = c.kill(); let _ = c.wait(); crash.push((cur, s("hang"))); *done = true }
            }
        }
    }
    let mut viols: Vec<J> = vec![];
    // a worker that died while it shrank a violation: the violation stands as it was found
    for f in kids.iter().map(|k| &k.1) { if let Some(v) = std::fs::read_to_string(format!("{}.viol", f)).ok().and_then(|t| J::parse(&t)) { let it = v.get("iteration").map(|x| x.num() as u64).unwrap_or(0); crash.retain(|c| c.0 != it); viols.push(v) } }
    crash.sort();
    // ended from outside (memory, a machine that stalled): what was left to that worker is not covered
    let mut lost = 0u64;
    for (it, how) in crash.iter().take(2) {
        let tf = format!("{}/tape.bin", dir);
        let a = vec![s("--one"), s("--prop"), prop.clone(), s("--seed"), seed.to_string(), s("--iter"), it.to_string(), s("--trace-tape"), tf.clone()];
        let Some(what) = crashes(&a, 45) else { eprintln!("iteration {} ended its worker ({}) but not alone", it, how); if how == "hang" || how.contains("signal: 9") { lost += 1; continue } std::process::exit(2) };
        let rec: Vec<u64> = std::fs::read(&tf).unwrap_or_default().chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).collect();
        let hang = what.starts_with("did");
        let best = shrink(&prop, rec, 60, &mut |c| { let a = vec![s("--one"), s("--prop"), prop.clone(), s("--tape"), tape_arg(&dir, c)]; if crashes(&a, if hang { 6 } else { 30 }).map(|w| w.starts_with("did") == hang).unwrap_or(false) { Some(c.len()) } else { None } });
        viols.push(obj(vec![("kind", "comp".into()), ("property", prop.as_str().into()), ("seed", J::Str(seed.to_string())), ("iteration", (*it).into()), ("spec", "".into()), ("text", "".into()), ("message", format!("the run brings the process down: {}", what).into()), ("crash", true.into()), ("log", J::Arr(vec![])), ("tape", nums(&best))]));
    }
    let (mut runs, mut now, mut re, mut dc) = (0.0, 0.0, 0.0, 0.0);
    let (mut classes, mut faults): (BTreeMap<String, u64>, BTreeMap<String, u64>) = Default::default();
    let (mut traces, mut texts): (HashSet<String>, HashSet<String>) = Default::default();
    let (mut samples, mut nondet) = (vec![], vec![]);
    for r in &results {
        let n = |k: &str| r.get(k).map(|x| x.num()).unwrap_or(0.0);
        runs += n("runs"); now += n("virtual_time"); re += n("rechecks"); dc += n("decisions");
        for (m, k) in [(&mut classes, "classes"), (&mut faults, "faults")] { if let Some(J::Obj(v)) = r.get(k) { for (a, b) in v { *m.entry(a.clone()).or_insert(0) += b.num() as u64 } } }
        for (m, k) in [(&mut traces, "traces"), (&mut texts, "texts")] { for x in r.get(k).unwrap().arr() { m.insert(x.str().to_string()); } }
        if samples.len() < 6 { samples.extend(r.get("samples").unwrap().arr().iter().take(1).cloned()) }
        nondet.extend(r.get("nondeterministic").unwrap().arr().iter().cloned());
        viols.extend(r.get("violations").unwrap().arr().iter().cloned());
    }
    viols.sort_by_key(|v| (v.get("tape").is_none(), v.get("iteration").map(|x| x.num() as u64)));
    let j = obj(vec![("runs", runs.into()), ("virtual_time", now.into()), ("decisions", dc.into()), ("rechecks", re.into()), ("nondeterministic", J::Arr(nondet)), ("classes", (&classes).into()), ("faults", (&faults).into()), ("distinct_traces", traces.len().into()), ("specs", texts.len().into()), ("samples", J::Arr(samples)), ("workers_lost", lost.into()), ("violations", J::Arr(viols)), ("wall", t0.elapsed().as_secs_f64().into())]);
    std::fs::write(&out, j.text()).unwrap();
    let _ = std::fs::remove_dir_all(&dir);
}
pub fn replay() {
    quiet();
    let j = J::parse(&std::fs::read_to_string(arg("--replay").unwrap()).unwrap()).unwrap();
    let prop = j.get("property").unwrap().str().to_string();
    let tape = j.get("tape").unwrap().tape();
    if j.get("crash").is_some() {
        let d = std::env::temp_dir().display().to_string();
        match crashes(&["--one".to_string(), "--prop".into(), prop, "--tape".into(), tape_arg(&d, &tape)], 60) { Some(w) => { println!("{}", w); std::process::exit(1) } None => { println!("not reproduced"); std::process::exit(0) } }
    }
    let _ = run_one(&prop, Tape::replay(vec![]), false);
    let r = run_one(&prop, Tape::replay(tape), true);
    for l in &r.log { println!("  {}", l) }
    match r.out { Out::Viol(m) => { println!("{}", m); println!("trace {:016x} recorded {}", r.trace, j.get("trace").map(|x| x.str()).unwrap_or("")); std::process::exit(1) } Out::Ok(l) => println!("not reproduced: ok {}", l), Out::Skip(l) => println!("not reproduced: {}", l) }
}
