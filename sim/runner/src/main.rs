//! Simulator runner: `runner --prop P03 --seed 1 --iters 100000 --secs 20 --out result.json [--workers 8]`
//! or `runner --replay file.json`.
#![allow(clippy::all)]
mod ops;
mod scen;
mod work;
mod sup;
mod registry { include!(concat!(env!("CARGO_MANIFEST_DIR"), "/registry.rs")); }
#[global_allocator]
static A: simrt::alloc::Track = simrt::alloc::Track;
pub fn arg(n: &str) -> Option<String> { let a: Vec<String> = std::env::args().collect(); a.iter().position(|x| x == n).and_then(|i| a.get(i + 1).cloned()) }
pub fn flag(n: &str) -> bool { std::env::args().any(|x| x == n) }
pub fn num(n: &str, d: u64) -> u64 { arg(n).and_then(|s| s.parse().ok()).unwrap_or(d) }
fn big(f: fn()) { std::thread::Builder::new().stack_size(256 << 20).spawn(f).unwrap().join().unwrap_or_else(|_| std::process::exit(2)) }
/// decode an input that nests as deep as it is long, on a thread with an ordinary 8 MB stack: `--deep TYPE --spec NAME [--with-async]`
fn deep() {
    ops::hook();
    let specs = work::specs();
    let ty = arg("--deep").unwrap();
    let c = specs.iter().find_map(|s| s.m.codec(&ty)).expect("the type exists");
    let data = vec![num("--byte", 1) as u8; num("--len", 1 << 20) as usize];
    let n = data.len();
    let w = simrt::World::new(psmodel::tape::Tape::seeded(1));
    let r = if flag("--with-async") { let cfg = ops::arcfg(&w, n); ops::dec_async(&w, c, &mut simrt::SimReader::new(&w, &data, cfg), &[], n) } else { let mut cfg = ops::rcfg(&w, n); cfg.chunk = simrt::Chunk::Whole; ops::dec(&w, c, &mut simrt::SimReader::new(&w, &data, cfg), &[], n) };
    match r { ops::R::Bad(m) => { println!("{}", m); std::process::exit(1) } ops::R::Ok(v) => { println!("decoded"); std::mem::forget(v) } ops::R::Err(e) => println!("ended in {:?}", e) }
}
fn main() {
    if flag("--deep") { return std::thread::Builder::new().stack_size(8 << 20).spawn(deep).unwrap().join().unwrap_or_else(|_| std::process::exit(2)) }
    if flag("--worker") { big(work::worker) } else if flag("--one") { big(work::one) } else if flag("--replay") { big(sup::replay) } else { sup::run() }
}
