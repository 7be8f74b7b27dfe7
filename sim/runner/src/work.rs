//! One worker process: runs iterations, shrinks violations.
use crate::ops::*;
use crate::scen::{self, Out};
use crate::*;
use psmodel::json::*;
use psmodel::tape::{mix, Tape};
use simrt::*;
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::time::{Duration, Instant};

pub struct Ran { pub out: Out, pub spec: usize, pub rec: Vec<u64>, pub used: usize, pub faults: BTreeMap<&'static str, u64>, pub now: u64, pub trace: u64, pub calls: u64 }
pub fn specs() -> Vec<Sp> {
    let only = arg("--spec");
    registry::all().into_iter().filter(|s| only.as_deref().map(|o| o == s.name).unwrap_or(true)).map(Sp::new).collect()
}
pub fn run(prop: &str, specs: &[Sp], t: Tape) -> Ran {
    let w = World::new(t);
    let r = guard(|| scen::run(prop, specs, &w));
    let (spec, out) = match r { Ok(x) => x, Err(m) => { eprintln!("HARNESS: scenario panicked: {}", m); std::process::exit(2) } };
    w.events.borrow_mut().clear();
    let t = w.t.borrow();
    let x = Ran { out, spec, rec: t.rec.clone(), used: t.used(), faults: w.faults.borrow().clone(), now: w.now.get(), trace: w.trace.get(), calls: w.calls.get() };
    x
}
pub fn iter_seed(prop: &str, seed: u64, i: u64) -> u64 { let p = prop.bytes().fold(7u64, |a, b| mix(a, b as u64)); mix(mix(p, seed), i) }
fn viol(o: &Out) -> Option<&str> { if let Out::Viol(m) = o { Some(m) } else { None } }
/// the kind of violation: its message without the particulars
pub fn kind_of(m: &str) -> String {
    let k: String = m.chars().filter(|c| !c.is_ascii_digit()).collect();
    for p in ["panicked or hung", "PANIC", "different value", "instead of", "rejected", "accepted", "came back", "success", "memory", "refused", "does not fit", "no progress", "no beginning"] { if k.contains(p) { return p.into(); } }
    k.chars().take(20).collect()
}
pub fn shrink(prop: &str, specs: &[Sp], rec: Vec<u64>, secs: u64) -> Vec<u64> {
    let end = Instant::now() + Duration::from_secs(secs);
    let first = run(prop, specs, Tape::replay(rec.clone()));
    let Some(m) = viol(&first.out) else { return rec };
    let kind = kind_of(m);
    let spec = first.spec;
    let mut best = rec;
    best.truncate(first.used.max(1));
    let mut bad = |c: &Vec<u64>| -> Option<usize> { let r = run(prop, specs, Tape::replay(c.clone())); if r.spec == spec && viol(&r.out).map(|m| kind_of(m) == kind).unwrap_or(false) { Some(r.used) } else { None } };
    loop {
        let before = (best.len(), best.iter().filter(|x| **x > 0).count());
        let mut size = best.len() / 2;
        while size >= 1 {
            let mut i = 1;
            while i < best.len() {
                if Instant::now() > end { return best; }
                let j = (i + size).min(best.len());
                let mut c = best.clone();
                c.drain(i..j);
                if let Some(u) = bad(&c) { c.truncate(u.max(1)); best = c; continue; }
                if best[i..j].iter().any(|x| *x != 0) { let mut c = best.clone(); for x in &mut c[i..j] { *x = 0 } if let Some(u) = bad(&c) { c.truncate(u.max(1)); best = c; } }
                i += size;
            }
            size /= 2;
        }
        for i in 1..best.len() {
            if i >= best.len() { break }
            while best[i] > 1 {
                if Instant::now() > end { return best; }
                let mut c = best.clone();
                c[i] /= 2;
                if let Some(u) = bad(&c) { c.truncate(u.max(1)); best = c; if i >= best.len() { break } } else { break }
            }
        }
        while best.len() > 1 && best.last() == Some(&0) { best.pop(); }
        if (best.len(), best.iter().filter(|x| **x > 0).count()) == before { return best; }
    }
}
/// replay record of a violation
pub fn report(prop: &str, specs: &[Sp], rec: &Vec<u64>, seed: u64, i: u64) -> J {
    log_on();
    let r = run(prop, specs, Tape::replay(rec.clone()));
    let log = log_take();
    let s = &specs[r.spec];
    obj(vec![("property", prop.into()), ("seed", J::Str(seed.to_string())), ("iteration", i.into()), ("spec", s.m.name.into()), ("async", s.m.has_async.into()), ("text", s.m.text.into()), ("message", viol(&r.out).unwrap_or("").into()), ("trace", J::Str(format!("{:016x}", r.trace))), ("faults", J::Obj(r.faults.iter().map(|(k, v)| (k.to_string(), (*v).into())).collect())), ("log", J::Arr(log.into_iter().map(|s| s.into()).collect())), ("tape", nums(rec))])
}
pub fn worker() {
    hook();
    let prop = arg("--prop").unwrap();
    let (seed, start, stride, iters, secs) = (num("--seed", 1), num("--start", 0), num("--stride", 1), num("--iters", 1000), num("--secs", 20));
    let specs = specs();
    let out = arg("--out").unwrap();
    let mut status = std::fs::OpenOptions::new().create(true).write(true).open(format!("{}.status", out)).unwrap();
    let t0 = Instant::now();
    let (mut runs, mut now, mut calls, mut rechecks, mut decisions) = (0u64, 0u64, 0u64, 0u64, 0u64);
    let mut classes: BTreeMap<String, u64> = BTreeMap::new();
    let mut faults: BTreeMap<String, u64> = BTreeMap::new();
    let mut traces: HashSet<u64> = HashSet::new();
    let mut shapes: HashSet<u64> = HashSet::new();
    let mut used_specs: HashSet<usize> = HashSet::new();
    let mut samples = vec![];
    let mut nondet = vec![];
    let mut viols = vec![];
    let mut kinds: HashSet<String> = HashSet::new();
    let mut i = start;
    let resume = num("--skip-to", 0);
    while i < iters {
        if i < resume { i += stride; continue; }
        if t0.elapsed().as_secs() >= secs { break; }
        use std::os::unix::fs::FileExt;
        let _ = status.write_at(&i.to_le_bytes(), 0);
        let r = run(&prop, &specs, Tape::seeded(iter_seed(&prop, seed, i)));
        runs += 1; now += r.now; calls += r.calls; decisions += r.rec.len() as u64;
        let l = match &r.out { Out::Ok(l) => format!("ok: {}", l), Out::Skip(l) => format!("nothing to judge: {}", l), Out::Viol(_) => "violation".into() };
        if matches!(r.out, Out::Ok(_)) { traces.insert(mix(r.trace, r.spec as u64)); shapes.insert(mix(r.spec as u64, r.faults.iter().fold(0, |a, (k, v)| mix(a, k.len() as u64 * 31 + (64 - v.leading_zeros()) as u64 + k.as_bytes()[0] as u64)))); used_specs.insert(r.spec); }
        *classes.entry(l.clone()).or_insert(0) += 1;
        for (k, v) in &r.faults { *faults.entry(k.to_string()).or_insert(0) += v; }
        if i % 97 == start % 97 {
            rechecks += 1;
            let q = run(&prop, &specs, Tape::seeded(iter_seed(&prop, seed, i)));
            if q.trace != r.trace || q.rec != r.rec || viol(&q.out) != viol(&r.out) { nondet.push(J::from(i)); }
        }
        if samples.len() < 3 && matches!(r.out, Out::Ok(_)) && runs > 20 { samples.push((i, r.rec.clone(), l)); }
        if let Some(m) = viol(&r.out) {
            let k = format!("{} {}", specs[r.spec].m.name, kind_of(m));
            if kinds.insert(k) && viols.len() < 3 {
                // shrinking can bring the process down
                std::fs::write(format!("{}.viol", out), report(&prop, &specs, &r.rec, seed, i).text()).unwrap();
                let rec = shrink(&prop, &specs, r.rec.clone(), 15);
                let _ = std::fs::remove_file(format!("{}.viol", out));
                viols.push(report(&prop, &specs, &rec, seed, i));
            } else { viols.push(obj(vec![("iteration", i.into()), ("spec", specs[r.spec].m.name.into()), ("message", m.into())])); }
            if !flag("--all") { break; }
        }
        i += stride;
    }
    let samples: Vec<J> = samples.into_iter().map(|(i, rec, l)| { log_on(); let r = run(&prop, &specs, Tape::replay(rec)); obj(vec![("iteration", i.into()), ("spec", specs[r.spec].m.name.into()), ("outcome", l.into()), ("steps", J::Arr(log_take().into_iter().take(14).map(|s| s.chars().take(300).collect::<String>().into()).collect()))]) }).collect();
    let j = obj(vec![("runs", runs.into()), ("virtual_time", now.into()), ("stream_calls", calls.into()), ("decisions", decisions.into()), ("rechecks", rechecks.into()), ("nondeterministic", J::Arr(nondet)), ("classes", (&classes).into()), ("faults", (&faults).into()),
        ("traces", nums(&traces.into_iter().take(200_000).collect::<Vec<_>>())), ("shapes", nums(&shapes.into_iter().collect::<Vec<_>>())), ("specs", J::Arr(used_specs.into_iter().map(|i| specs[i].m.name.into()).collect())), ("samples", J::Arr(samples)), ("violations", J::Arr(viols)), ("wall", t0.elapsed().as_secs_f64().into())]);
    std::fs::write(&out, j.text()).unwrap();
    let _ = status.flush();
}
/// one run in a process of its own: by tape, or by iteration with the tape written as it grows
pub fn one() {
    hook();
    let prop = arg("--prop").unwrap();
    let specs = specs();
    let t = match arg("--tape") { Some(f) => Tape::replay(J::parse(&std::fs::read_to_string(f).unwrap()).unwrap().tape()), None => { let mut t = Tape::seeded(iter_seed(&prop, num("--seed", 1), num("--iter", 0))); if let Some(f) = arg("--trace-tape") { t.sink(&f) } t } };
    let r = run(&prop, &specs, t);
    match r.out { Out::Viol(m) => { println!("{}", m); std::process::exit(1) } _ => std::process::exit(0) }
}
