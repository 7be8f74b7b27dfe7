//! The build step: success only with the complete code in the output file.
use crate::common::*;
use crate::hooks::{self, DISK};
use proc_macro2::{TokenStream, TokenTree};
use std::sync::atomic::Ordering::SeqCst;

/// the words of some code in their order, without the punctuation a formatter may change
pub fn words(s: &str) -> Option<Vec<String>> {
    fn go(ts: TokenStream, o: &mut Vec<String>) { for t in ts { match t { TokenTree::Group(g) => go(g.stream(), o), TokenTree::Punct(_) => (), t => o.push(t.to_string()) } } }
    let mut o = vec![];
    go(s.parse().ok()?, &mut o);
    Some(o)
}
pub const MODE: &str = "COMPSIM_FORMATTER";
/// a formatter's way of life: `read,stall_ms,emit,early,end`
#[derive(Clone, Debug)]
pub struct Fmt { pub read: usize, pub stall: u64, pub style: usize, pub emit: usize, pub order: usize, pub end: i32 }
impl Fmt {
    fn arg(&self) -> String { format!("{} {} {} {} {} {}", self.read, self.stall, self.style, self.emit, self.order, self.end) }
    fn parse(s: &str) -> Fmt { let v: Vec<&str> = s.split(' ').collect(); Fmt { read: v[0].parse().unwrap(), stall: v[1].parse().unwrap(), style: v[2].parse().unwrap(), emit: v[3].parse().unwrap(), order: v[4].parse().unwrap(), end: v[5].parse().unwrap() } }
}
fn restyle(input: &str, style: usize) -> Vec<u8> {
    match style {
        0 => input.as_bytes().to_vec(),
        1 => { let mut o = String::new(); let mut q = false; let mut e = false; for c in input.chars() { if q { if e { e = false } else if c == '\\' { e = true } else if c == '"' { q = false } } else if c == '"' { q = true } o.push(c); if !q && (c == ';' || c == '{' || c == '}') { o.push_str("\n    ") } } o.into_bytes() }
        2 => b"fn main() {}\n".to_vec(),
        3 => { let mut b = input.as_bytes().to_vec(); let n = b.len(); if n > 2 { b[n / 2] = 0xff; b[n / 2 + 1] = 0xc0; } b }
        4 => vec![],
        5 => b"\n".to_vec(),
        6 => b"error: this is not Rust {{{".to_vec(),
        _ => { let mut b = vec![0xef, 0xbb, 0xbf]; b.extend_from_slice(input.as_bytes()); b }
    }
}
/// the stand-in for rustfmt: a process of its own that does what the environment says
pub fn formatter() -> ! {
    use std::io::{Read, Write};
    let f = Fmt::parse(&std::env::var(MODE).unwrap());
    let mut input = vec![];
    let (mut i, mut o) = (std::io::stdin().lock(), std::io::stdout().lock());
    let die = |end: i32| -> ! { if end < 0 { loop { unsafe { hooks::sys(62, hooks::sys(39, 0, 0, 0, 0, 0, 0), -end as i64, 0, 0, 0, 0); } } } std::process::exit(end) };
    let nap = || if f.stall > 0 { std::thread::sleep(std::time::Duration::from_millis(f.stall)) };
    match f.order {
        // prints before it reads
        1 => { let _ = o.write_all(&vec![b' '; f.emit.min(1 << 20)]); let _ = o.flush(); nap(); let _ = i.read_to_end(&mut input); let _ = o.write_all(&restyle(&String::from_utf8_lossy(&input), f.style)); let _ = o.flush(); die(f.end) }
        // a filter: prints what it has read so far
        2 => { let mut b = vec![0; f.emit.clamp(1, 65536)]; let mut left = f.read; loop { let n = i.read(&mut b).unwrap_or(0).min(left); if n == 0 { break } nap(); left -= n; if o.write_all(&b[..n]).is_err() { break } } let _ = o.flush(); die(f.end) }
        _ => (),
    }
    nap();
    if f.read == usize::MAX { let _ = i.read_to_end(&mut input); } else { let mut left = f.read; let mut b = [0; 4096]; while left > 0 { let k = left.min(4096); match i.read(&mut b[..k]) { Ok(n) if n > 0 => { input.extend_from_slice(&b[..n]); left -= n } _ => break } } unsafe { hooks::sys(3, 0, 0, 0, 0, 0, 0); } }
    let out = restyle(&String::from_utf8_lossy(&input), f.style);
    let _ = o.write_all(&out[..out.len().min(f.emit)]);
    let _ = o.flush();
    die(f.end)
}
const NAMES: [&str; 5] = ["spec", "a.b", "with space", "x", "名前"];
fn scratch() -> String { format!("{}/compsim-{}", std::env::temp_dir().display(), unsafe { hooks::sys(39, 0, 0, 0, 0, 0, 0) }) }
pub fn scenario(w: &W) -> Res {
    let mut s = source(w, true, false);
    // now and then more than fits into a pipe
    if w.chance(1, 6) { let n = w.us(40); let t = &mut s.files[0].1; for k in 0..n { t.push_str(&format!("type Extra{} = container {{ a: u8, b: u16[a], c: u16le[a + {}], d: container {{ e: f64, }} }};\n", k, k)); } }
    let o = Opt::pick(w);
    if !o.is_async && w.chance(1, 8) && !s.files[0].1.contains("import_ffi gzip") { s.files[0].1.insert_str(0, "import_ffi gzip as transform;\ntype Zip = u8[..] -> gzip;\n") }
    let mut opts = protospec_build::Options { include_async: o.is_async, use_anyhow: o.anyhow, debug_mode: o.debug, ..Default::default() };
    if o.derives { opts.struct_derives.push("PartialOrd".into()); opts.enum_derives.push("Hash".into()); }
    opts.format_output = !w.chance(1, 6);
    let text = s.files[0].1.clone();
    w.files.replace(s.text());
    w.ev(digest(text.as_bytes()));
    w.log(|| format!("compile_spec of {} ({} bytes) with {:?}, format_output {}", s.name, text.len(), o, opts.format_output));
    let co = protospec_build::CompileOptions { enum_derives: opts.enum_derives.clone(), struct_derives: opts.struct_derives.clone(), include_async: o.is_async, use_anyhow: o.anyhow, debug_mode: o.debug };
    let t2 = text.clone();
    let seed = w.u64() | 1;
    let big = |f: Box<dyn FnOnce() -> Result<String, String> + Send>| std::thread::Builder::new().stack_size(16 << 20).spawn(move || { hooks::seed_random(seed); guard(f).unwrap_or_else(|p| Err(format!("PANIC {}", p))) }).unwrap();
    let want = big(Box::new(move || { let p = protospec_build::parse(&t2).map_err(|e| e.to_string())?; let p = protospec_build::asg::Program::from_ast(&p, &protospec_build::PreludeImportResolver(protospec_build::NullImportResolver)).map_err(|e| e.to_string())?; Ok(protospec_build::compiler::compile_program(&p, &co).to_string()) })).join().unwrap();
    let want = match want { Ok(c) => c, Err(e) => return viol(format!("a valid specification is rejected: {}", e)) };
    let len = want.len();
    // ---- the surroundings
    let dir = scratch();
    let _ = std::fs::remove_dir_all(&dir);
    std::fs::create_dir_all(format!("{}/out", dir)).unwrap();
    std::fs::create_dir_all(format!("{}/bin", dir)).unwrap();
    let name = NAMES[w.us(NAMES.len())];
    let target = format!("{}/out/{}.rs", dir, name);
    let mut faults = 0;
    // what an earlier build left behind
    match w.us(8) {
        1 => { std::fs::write(&target, format!("{}\nfn stale() {{}}\n", want)).unwrap(); w.fault("stale longer output file") }
        2 => { std::fs::write(&target, "fn stale() {}\n").unwrap(); w.fault("stale output file") }
        3 => { std::fs::write(&target, &want[..len / 2]).unwrap(); w.fault("torn output file of a crashed build") }
        k @ (4 | 5) => {
            // of the same size, and different in one letter somewhere
            let mut b = if k == 4 { want.clone().into_bytes() } else { restyle(&want, 1) };
            let mut at = match w.us(3) { 0 => w.us(b.len()), 1 => b.len() - 1 - w.us(b.len().min(400)), _ => w.us(b.len().min(3000)) };
            for _ in 0..b.len() { if b[at].is_ascii_lowercase() { break } at = (at + 1) % b.len(); }
            b[at] = if b[at] == b'q' { b'j' } else { b'q' };
            std::fs::write(&target, b).unwrap();
            if w.chance(1, 2) { if let Ok(f) = std::fs::File::options().append(true).open(&target) { let _ = f.set_modified(std::time::SystemTime::now() + std::time::Duration::from_secs(86400)); } }
            w.fault("output file of the same size and other content")
        }
        6 => { std::fs::write(&target, &want).unwrap(); w.fault("output file with the same content") }
        _ => (),
    }
    let place = |w: &W, n: usize| -> usize { match w.us(5) { 0 => 0, 1 => w.us(n + 1), 2 => n.saturating_sub(1 + w.us(4)), 3 => (w.us(n / 4096 + 1)) * 4096, _ => n } };
    let mut fm = Fmt { read: usize::MAX, stall: 0, style: w.us(2), emit: usize::MAX, order: 0, end: 0 };
    let mut there = true;
    let bin = format!("{}/bin/rustfmt", dir);
    let mut exe = true;
    let mut pipe = usize::MAX;
    match w.us(16) {
        0..=3 => (),
        4 => { there = false; w.fault("formatter not installed") }
        5 => { exe = false; w.fault("formatter not executable") }
        6 => { fm.end = [1, 2, 101, 255][w.us(4)]; w.fault("formatter exits with an error") }
        7 => { fm.end = [-9, -11, -6, -15][w.us(4)]; fm.emit = place(w, len); w.fault("formatter killed") }
        8 => { fm.end = if w.chance(1, 2) { 0 } else { 1 }; fm.emit = place(w, len); w.fault("formatter output cut short") }
        9 => { fm.style = 2 + w.us(6); w.fault("formatter prints something else") }
        10 => { fm.read = place(w, len); pipe = fm.read; fm.end = [0, 1, -9][w.us(3)]; w.fault("formatter stops reading") }
        11 => { fm.order = 1; fm.emit = [0, 100, 70_000, 300_000][w.us(4)]; w.fault("formatter prints before it reads") }
        12 => { fm.order = 2; fm.emit = [1 + w.us(500), 4096, 65536][w.us(3)].max(1 + len / 400); w.fault("formatter prints while it reads") }
        13 => { fm.stall = 1 + w.us(12) as u64; w.fault("formatter stalls") }
        14 => { fm.read = 0; pipe = 0; fm.style = 4; fm.end = 0; w.fault("formatter succeeds without reading or printing") }
        _ => { fm.end = -9; fm.emit = 0; fm.read = 0; pipe = 0; w.fault("formatter killed at once") }
    }
    if there { if exe { std::os::unix::fs::symlink(std::env::current_exe().unwrap(), &bin).unwrap() } else { std::fs::write(&bin, "no program").unwrap() } }
    hooks::disk_reset();
    hooks::disk_dir(&format!("{}/out", dir));
    let mut outdir = Some(format!("{}/out", dir));
    match w.us(14) {
        0..=3 => (),
        4 => { DISK.open_errno.store([hooks::EACCES, hooks::EMFILE, hooks::EROFS, hooks::EIO, hooks::ENOSPC][w.us(5)], SeqCst); faults += 1; w.fault("creating the file fails") }
        5 | 6 => { DISK.room.store(place(w, len), SeqCst); DISK.full_errno.store([hooks::ENOSPC, hooks::EDQUOT, hooks::EIO][w.us(3)], SeqCst); faults += 1; w.fault("disk full or write error") }
        7 => { DISK.chunk.store([1 + len / 300, 4096, 1 + len / 2][w.us(3)], SeqCst); w.fault("short writes") }
        8 => { DISK.eintr.store(w.u64() & w.u64(), SeqCst); DISK.chunk.store(1 + len / 40, SeqCst); w.fault("interrupted writes") }
        9 | 10 => { DISK.late_errno.store([hooks::EIO, hooks::ENOSPC, hooks::EDQUOT][w.us(3)], SeqCst); faults += 1; w.fault("late write error, reported by fsync or close") }
        11 => { outdir = match w.us(4) { 0 => None, 1 => Some(format!("{}/nowhere", dir)), 2 => Some(format!("{}/bin/rustfmt", dir)), _ => { std::fs::remove_dir_all(format!("{}/out", dir)).unwrap(); Some(format!("{}/out", dir)) } }; faults += 1; w.fault("no output directory") }
        12 => { DISK.open_nth.store(1, SeqCst); DISK.open_errno.store(hooks::EIO, SeqCst); DISK.rename_errno.store(hooks::EIO, SeqCst); DISK.chunk.store(1 + len / 3, SeqCst); DISK.eintr.store(w.u64(), SeqCst); w.fault("short and interrupted writes, renaming fails") }
        _ => { let _ = std::fs::remove_file(&target); std::fs::create_dir_all(&target).unwrap(); faults += 1; w.fault("a directory in the way") }
    }
    DISK.pipe_take.store(pipe, SeqCst);
    if w.chance(1, 5) { DISK.pipe_eintr.store(w.u64() & w.u64(), SeqCst); w.fault("interrupted pipe writes") }
    w.log(|| format!("formatter {} {:?}; disk room {} chunk {} late {} open {}; OUT_DIR {:?}; pre-existing {:?}", if there { if exe { "installed" } else { "not executable" } } else { "missing" }, fm, DISK.room.load(SeqCst), DISK.chunk.load(SeqCst), DISK.late_errno.load(SeqCst), DISK.open_errno.load(SeqCst), outdir, std::fs::metadata(&target).map(|m| m.len()).ok()));
    let path = std::env::var_os("PATH");
    std::env::set_var("PATH", format!("{}/bin", dir));
    std::env::set_var(MODE, fm.arg());
    match &outdir { Some(d) => std::env::set_var("OUT_DIR", d), None => std::env::remove_var("OUT_DIR") }
    let n2 = name.to_string();
    let quiet = hooks::quiet_fd2();
    DISK.on.store(true, SeqCst);
    let h = big(Box::new(move || protospec_build::compile_spec(&n2, &text, &opts).map(|_| String::new()).map_err(|e| e.to_string())));
    let t0 = std::time::Instant::now();
    let mut hung = false;
    while !h.is_finished() { if t0.elapsed().as_secs() > 20 { hung = true; break } std::thread::sleep(std::time::Duration::from_micros(200)) }
    let r = if hung { Err("hang".into()) } else { h.join().unwrap() };
    DISK.on.store(false, SeqCst);
    hooks::loud_fd2(quiet);
    if let Some(p) = path { std::env::set_var("PATH", p) }
    std::env::remove_var("OUT_DIR");
    let hits = DISK.hit.load(SeqCst);
    let got = std::fs::read(&target);
    let _ = std::fs::remove_dir_all(&dir);
    if hung { return viol("the build step does not end".into()) }
    w.ev(r.is_ok() as u64); w.ev(got.as_ref().map(|g| digest(g)).unwrap_or(1)); w.ev(hits); w.steps.set(DISK.writes.load(SeqCst) as u64);
    w.log(|| format!("result {:?}; the file has {:?} bytes; faults met {:#x}", r, got.as_ref().map(|g| g.len()).ok(), hits));
    match r {
        Ok(_) => {
            let Ok(g) = got else { return viol("success, and there is no output file".into()) };
            let Ok(g) = String::from_utf8(g) else { return viol("success, and the output file is not text".into()) };
            if g == want { return Ok(if faults > 0 && hits != 0 { "complete, despite a disk fault" } else { "complete, unformatted" }) }
            match (words(&g), words(&want)) {
                (Some(a), Some(b)) if a == b => Ok("complete, formatted"),
                (Some(a), Some(b)) => viol(format!("success, and the output file holds {} words of code instead of {} ({} bytes, generated {})", a.len(), b.len(), g.len(), len)),
                _ => viol(format!("success, and the output file is not code ({} bytes, generated {})", g.len(), len)),
            }
        }
        Err(e) if e.starts_with("PANIC") => if faults == 0 { viol(format!("nothing is wrong with the disk, and the build step panics: {}", e)) } else { Ok("panics visibly") },
        Err(e) => if faults == 0 && hits & !(hooks::HIT_SHORT | hooks::HIT_EINTR | hooks::HIT_PIPE | hooks::HIT_PIPE_EINTR) == 0 && fm.end == 0 && there && exe && fm.style < 2 && fm.read == usize::MAX && fm.emit >= len { viol(format!("nothing failed, and the build step does: {}", e)) } else { Ok("fails visibly") },
    }
}
