//! Simulator of the compiler: `compsim --prop P14 --seed 1 --iters 1000 --secs 20 --out result.json [--workers 8]`,
//! `compsim --replay file.json`; called as `rustfmt` it is the simulated formatter.
#![allow(clippy::all, dead_code)]
mod common;
mod hooks;
mod p14;
mod p15;
mod p16;
mod p17;
mod p21;
mod sup;
#[path = "../../specgen/src/resolver.rs"]
mod resolver;
#[global_allocator]
static A: hooks::Mem = hooks::Mem;
pub fn arg(n: &str) -> Option<String> { let a: Vec<String> = std::env::args().collect(); a.iter().position(|x| x == n).and_then(|i| a.get(i + 1).cloned()) }
pub fn flag(n: &str) -> bool { std::env::args().any(|x| x == n) }
pub fn num(n: &str, d: u64) -> u64 { arg(n).and_then(|s| s.parse().ok()).unwrap_or(d) }
fn big(f: fn()) { std::thread::Builder::new().stack_size(256 << 20).spawn(f).unwrap().join().unwrap_or_else(|_| std::process::exit(2)) }
fn main() {
    if std::env::args().next().map(|a| a.ends_with("rustfmt")).unwrap_or(false) { p16::formatter() }
    hooks::one_arena();
    if let Some(f) = arg("--compile") { p14::child(&f) } else if flag("--worker") { big(sup::worker) } else if flag("--one") { big(sup::one) } else if flag("--replay") { big(sup::replay) } else { sup::run() }
}
