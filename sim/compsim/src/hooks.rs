//! The seams to the operating system: library calls of the process are answered here, and the threads that compile
//! take turns as the simulator decides.
use std::alloc::{GlobalAlloc, Layout, System};
use std::arch::asm;
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicI32, AtomicU32, AtomicU64, AtomicUsize, Ordering::*};

pub unsafe fn sys(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    let r: i64;
    asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e, in("r9") f, out("rcx") _, out("r11") _, options(nostack));
    r
}
extern "C" { fn __errno_location() -> *mut i32; fn strlen(s: *const u8) -> usize; static environ: *const *const u8; fn mallopt(p: i32, v: i32) -> i32; }
unsafe fn ret(r: i64) -> i64 { if r < 0 && r > -4096 { *__errno_location() = -r as i32; -1 } else { r } }
pub const EINTR: i32 = 4; pub const EIO: i32 = 5; pub const EACCES: i32 = 13; pub const ENOSPC: i32 = 28; pub const EPIPE: i32 = 32; pub const EDQUOT: i32 = 122; pub const EMFILE: i32 = 24; pub const EROFS: i32 = 30; pub const EXDEV: i32 = 18;

// ------------------------------------------------------------------ seeded noise
fn splitmix(s: &AtomicU64) -> u64 { let x = s.fetch_add(0x9E3779B97F4A7C15, Relaxed).wrapping_add(0x9E3779B97F4A7C15); let z = (x ^ (x >> 30)).wrapping_mul(0xBF58476D1CE4E5B9); let z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB); z ^ (z >> 31) }
static RAND: AtomicU64 = AtomicU64::new(1);
static RAND_CALLS: AtomicU64 = AtomicU64::new(0);
pub fn seed_random(s: u64) { RAND.store(s, Relaxed) }
pub fn random_calls() -> u64 { RAND_CALLS.load(Relaxed) }
/// hash seeds and everything else that is random
#[no_mangle]
pub unsafe extern "C" fn getrandom(b: *mut u8, n: usize, _f: u32) -> isize {
    RAND_CALLS.fetch_add(1, Relaxed);
    let mut i = 0;
    while i < n { let v = splitmix(&RAND).to_le_bytes(); let mut k = 0; while k < 8 && i < n { *b.add(i) = v[k]; i += 1; k += 1; } }
    n as isize
}
#[no_mangle]
pub unsafe extern "C" fn getentropy(b: *mut u8, n: usize) -> i32 { getrandom(b, n, 0); 0 }

// ------------------------------------------------------------------ managed threads
pub const MAX: usize = 6;
thread_local! { static ID: Cell<usize> = const { Cell::new(usize::MAX) }; static IN: Cell<bool> = const { Cell::new(false) }; }
fn id() -> usize { ID.try_with(|c| c.get()).unwrap_or(usize::MAX) }
static ALIVE: [AtomicBool; MAX] = [const { AtomicBool::new(false) }; MAX];
static TURN: AtomicU32 = AtomicU32::new(u32::MAX);
static GATE: [AtomicU32; MAX] = [const { AtomicU32::new(0) }; MAX];
static SRNG: AtomicU64 = AtomicU64::new(0);
static PERIOD: AtomicUsize = AtomicUsize::new(0);
static LEFT: AtomicUsize = AtomicUsize::new(0);
static SWITCHES: AtomicU64 = AtomicU64::new(0);
static MAXSW: AtomicU64 = AtomicU64::new(u64::MAX);
static TRACE: AtomicU64 = AtomicU64::new(0);
static STEPS: AtomicU64 = AtomicU64::new(0);
/// environment, clock, process id and addresses differ from run to run
static NOISE: AtomicU64 = AtomicU64::new(0);
pub fn noise(s: u64) { NOISE.store(s, Relaxed) }
unsafe fn futex_wait(a: &AtomicU32, v: u32) { sys(202, a as *const _ as i64, 128, v as i64, 0, 0, 0); }
unsafe fn futex_wake(a: &AtomicU32) { sys(202, a as *const _ as i64, 129, 1, 0, 0, 0); }
pub fn begin(seed: u64, period: usize, max_switches: u64, threads: usize) {
    SRNG.store(seed, Relaxed); PERIOD.store(period.max(1), Relaxed); LEFT.store(period.max(1), Relaxed); SWITCHES.store(0, Relaxed); MAXSW.store(max_switches, Relaxed); TRACE.store(7, Relaxed); STEPS.store(0, Relaxed);
    for i in 0..MAX { ALIVE[i].store(i < threads, Relaxed); GATE[i].store(0, Relaxed); }
    TURN.store(u32::MAX, SeqCst);
}
pub struct Stats { pub switches: u64, pub trace: u64, pub steps: u64 }
pub fn stats() -> Stats { Stats { switches: SWITCHES.load(Relaxed), trace: TRACE.load(Relaxed), steps: STEPS.load(Relaxed) } }
fn grant(i: usize) { TURN.store(i as u32, SeqCst); GATE[i].store(1, SeqCst); unsafe { futex_wake(&GATE[i]) } }
fn wait_turn(i: usize) { while GATE[i].load(SeqCst) == 0 { unsafe { futex_wait(&GATE[i], 0) } } GATE[i].store(0, SeqCst); }
fn other(me: usize) -> Option<usize> {
    let n = (0..MAX).filter(|&i| i != me && ALIVE[i].load(Relaxed)).count();
    if n == 0 { return None }
    let k = (splitmix(&SRNG) % n as u64) as usize;
    (0..MAX).filter(|&i| i != me && ALIVE[i].load(Relaxed)).nth(k)
}
fn switch(me: usize, why: u64) -> bool {
    let Some(o) = other(me) else { return false };
    SWITCHES.fetch_add(1, Relaxed);
    let t = TRACE.load(Relaxed);
    TRACE.store((t ^ (o as u64 + 1 + why * 16) ^ STEPS.load(Relaxed) << 8).wrapping_mul(0x100000001B3).rotate_left(23), Relaxed);
    LEFT.store(1 + (splitmix(&SRNG) % (2 * PERIOD.load(Relaxed) as u64)) as usize, Relaxed);
    grant(o);
    wait_turn(me);
    true
}
/// lets the first thread go
pub fn start() { let n = (0..MAX).filter(|&i| ALIVE[i].load(Relaxed)).count() as u64; grant((splitmix(&SRNG) % n) as usize) }
/// runs as thread i of the simulation
pub fn managed<T>(i: usize, f: impl FnOnce() -> T) -> T {
    wait_turn(i);
    ID.with(|c| c.set(i));
    let r = f();
    ID.with(|c| c.set(usize::MAX));
    ALIVE[i].store(false, SeqCst);
    if let Some(o) = other(i) { grant(o) }
    r
}
fn point() {
    let me = id();
    if me == usize::MAX || IN.with(|c| c.get()) { return }
    IN.with(|c| c.set(true));
    STEPS.fetch_add(1, Relaxed);
    let l = LEFT.load(Relaxed);
    if l <= 1 { if SWITCHES.load(Relaxed) < MAXSW.load(Relaxed) { switch(me, 0); } } else { LEFT.store(l - 1, Relaxed) }
    IN.with(|c| c.set(false));
}
/// waiting for another thread hands over to it
#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    if n == 318 { return getrandom(a as *mut u8, b as usize, 0) as i64 }
    if n == 202 { let op = b & 127; if (op == 0 || op == 9) && id() != usize::MAX && !IN.with(|c| c.get()) {
        if (*(a as *const AtomicU32)).load(SeqCst) != c as u32 { return ret(-11) }
        IN.with(|c| c.set(true));
        let s = switch(id(), 1);
        IN.with(|c| c.set(false));
        if s { return 0 }
    } }
    ret(sys(n, a, b, c, d, e, f))
}
#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> i32 { let me = id(); if me != usize::MAX { switch(me, 2); } else { sys(24, 0, 0, 0, 0, 0, 0); } 0 }

// ------------------------------------------------------------------ memory
pub struct Mem;
static TOTAL: AtomicU64 = AtomicU64::new(0);
static COUNT: AtomicU64 = AtomicU64::new(0);
static SLACK: AtomicU64 = AtomicU64::new(0);
pub fn allocated() -> (u64, u64) { (TOTAL.load(Relaxed), COUNT.load(Relaxed)) }
pub fn one_arena() { unsafe { mallopt(-8, 1); } }
fn slack(l: Layout) -> Layout {
    // the same requests get other addresses in another run
    if NOISE.load(Relaxed) == 0 || id() == usize::MAX { return l }
    let _ = &SLACK;
    l
}
unsafe impl GlobalAlloc for Mem {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        TOTAL.fetch_add(l.size() as u64, Relaxed); COUNT.fetch_add(1, Relaxed);
        if id() != usize::MAX { point(); if NOISE.load(Relaxed) != 0 { return lanes::alloc(slack(l)) } }
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { if lanes::dealloc(p, l) { return } System.dealloc(p, l) }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if lanes::owns(p) || (id() != usize::MAX && NOISE.load(Relaxed) != 0) {
            let nl = Layout::from_size_align_unchecked(n, l.align());
            let q = self.alloc(nl);
            if !q.is_null() { std::ptr::copy_nonoverlapping(p, q, l.size().min(n)); self.dealloc(p, l); }
            return q;
        }
        TOTAL.fetch_add(n as u64, Relaxed); COUNT.fetch_add(1, Relaxed);
        System.realloc(p, l, n)
    }
}
/// small blocks at addresses whose order is seeded: size classes with free lists, carved from lanes picked at random
mod lanes {
    use super::*;
    const BASE: usize = 0x5000_0000_0000;
    const LANE: usize = 1 << 30;
    const LANES: usize = 4;
    static NEXT: [AtomicUsize; LANES] = [const { AtomicUsize::new(0) }; LANES];
    static FREE: [AtomicUsize; 24] = [const { AtomicUsize::new(0) }; 24];
    static LOCK: AtomicBool = AtomicBool::new(false);
    static READY: AtomicBool = AtomicBool::new(false);
    static RNG: AtomicU64 = AtomicU64::new(5);
    pub fn seed(s: u64) { RNG.store(s, Relaxed) }
    pub fn owns(p: *mut u8) -> bool { let a = p as usize; a >= BASE && a < BASE + LANE * LANES }
    fn class(l: Layout) -> Option<usize> { let n = l.size().max(l.align()).max(16).next_power_of_two(); if n > 4096 { None } else { Some(n.trailing_zeros() as usize) } }
    fn lock() { while LOCK.swap(true, Acquire) { std::hint::spin_loop() } }
    fn unlock() { LOCK.store(false, Release) }
    pub unsafe fn alloc(l: Layout) -> *mut u8 {
        let Some(c) = class(l) else { return System.alloc(l) };
        lock();
        if !READY.load(Relaxed) {
            let r = sys(9, BASE as i64, (LANE * LANES) as i64, 3, 0x22 | 0x4000 | 0x100000, -1, 0);
            if r != BASE as i64 { unlock(); return System.alloc(l) }
            READY.store(true, Relaxed);
        }
        let r = splitmix(&RNG);
        let f = FREE[c].load(Relaxed);
        let p = if f != 0 && r % 8 != 0 { FREE[c].store(*(f as *const usize), Relaxed); f }
        else { let k = (r >> 8) as usize % LANES; let o = NEXT[k].load(Relaxed); let o = (o + (1 << c) - 1) & !((1 << c) - 1); if o + (1 << c) > LANE { unlock(); return System.alloc(l) } NEXT[k].store(o + (1 << c), Relaxed); BASE + k * LANE + o };
        unlock();
        p as *mut u8
    }
    pub unsafe fn dealloc(p: *mut u8, l: Layout) -> bool {
        if !owns(p) { return false }
        let Some(c) = class(l) else { return true };
        lock();
        *(p as *mut usize) = FREE[c].load(Relaxed);
        FREE[c].store(p as usize, Relaxed);
        unlock();
        true
    }
}
pub fn seed_addresses(s: u64) { lanes::seed(s) }

// ------------------------------------------------------------------ environment, clock, process
fn hash(s: &[u8]) -> u64 { s.iter().fold(0xcbf29ce484222325u64, |h, b| (h ^ *b as u64).wrapping_mul(0x100000001b3)) }
static VALUES: [&[u8]; 8] = [b"\0", b"0\0", b"1\0", b"true\0", b"debug\0", b"/nonexistent\0", b"C.UTF-8\0", b"release\0"];
unsafe fn real_getenv(n: *const u8, l: usize) -> *const u8 {
    let mut e = environ;
    if e.is_null() { return std::ptr::null() }
    while !(*e).is_null() { let s = *e; let mut i = 0; while i < l && *s.add(i) == *n.add(i) { i += 1 } if i == l && *s.add(l) == b'=' { return s.add(l + 1) } e = e.add(1) }
    std::ptr::null()
}
#[no_mangle]
pub unsafe extern "C" fn getenv(n: *const u8) -> *const u8 {
    let l = strlen(n);
    let name = std::slice::from_raw_parts(n, l);
    let z = NOISE.load(Relaxed);
    if z != 0 && id() != usize::MAX && !name.starts_with(b"RUST_") { let h = hash(name) ^ z; let h = (h ^ h >> 29).wrapping_mul(0x9E3779B97F4A7C15); if h >> 63 == 0 { return std::ptr::null() } return VALUES[(h >> 32) as usize % VALUES.len()].as_ptr() }
    real_getenv(n, l)
}
static CLOCK: AtomicU64 = AtomicU64::new(0);
pub fn clock() -> u64 { CLOCK.load(Relaxed) }
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(c: i32, t: *mut [i64; 2]) -> i32 {
    let z = NOISE.load(Relaxed);
    if z != 0 && id() != usize::MAX {
        let v = CLOCK.fetch_add(1 + z % 1_000_000, Relaxed);
        let base = if c == 0 { (z >> 20) % 4_000_000_000 } else { 1000 };
        *t = [(base + v / 1_000_000_000) as i64, (v % 1_000_000_000) as i64];
        return 0;
    }
    ret(sys(228, c as i64, t as i64, 0, 0, 0, 0)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn getpid() -> i32 { let z = NOISE.load(Relaxed); if z != 0 && id() != usize::MAX { (z % 30000) as i32 + 2 } else { sys(39, 0, 0, 0, 0, 0, 0) as i32 } }

// ------------------------------------------------------------------ files
/// what happens to the files of one build step
pub struct Disk { pub on: AtomicBool, pub open_errno: AtomicI32, pub room: AtomicUsize, pub full_errno: AtomicI32, pub chunk: AtomicUsize, pub eintr: AtomicU64, pub late_errno: AtomicI32, pub rename_errno: AtomicI32,
    pub opens: AtomicUsize, pub writes: AtomicUsize, pub hit: AtomicU64, pub written: AtomicUsize, pub pipe_take: AtomicUsize, pub pipe_got: AtomicUsize, pub pipe_eintr: AtomicU64, pub open_nth: AtomicUsize }
pub static DISK: Disk = Disk { on: AtomicBool::new(false), open_errno: AtomicI32::new(0), room: AtomicUsize::new(usize::MAX), full_errno: AtomicI32::new(ENOSPC), chunk: AtomicUsize::new(usize::MAX), eintr: AtomicU64::new(0), late_errno: AtomicI32::new(0), rename_errno: AtomicI32::new(0),
    opens: AtomicUsize::new(0), writes: AtomicUsize::new(0), hit: AtomicU64::new(0), written: AtomicUsize::new(0), pipe_take: AtomicUsize::new(usize::MAX), pipe_got: AtomicUsize::new(0), pipe_eintr: AtomicU64::new(0), open_nth: AtomicUsize::new(0) };
/// directory whose files are on the simulated disk
static mut DIR: [u8; 256] = [0; 256];
static DIRLEN: AtomicUsize = AtomicUsize::new(0);
static OURS: [AtomicBool; 1024] = [const { AtomicBool::new(false) }; 1024];
static PIPE: [AtomicBool; 1024] = [const { AtomicBool::new(false) }; 1024];
pub const HIT_OPEN: u64 = 1; pub const HIT_FULL: u64 = 2; pub const HIT_SHORT: u64 = 4; pub const HIT_EINTR: u64 = 8; pub const HIT_SYNC: u64 = 16; pub const HIT_CLOSE: u64 = 32; pub const HIT_RENAME: u64 = 64; pub const HIT_PIPE: u64 = 128; pub const HIT_PIPE_EINTR: u64 = 256;
fn hit(h: u64) { DISK.hit.fetch_or(h, Relaxed); }
pub fn disk_dir(d: &str) { let b = d.as_bytes(); unsafe { let p = &raw mut DIR as *mut u8; std::ptr::copy_nonoverlapping(b.as_ptr(), p, b.len().min(255)); } DIRLEN.store(b.len().min(255), SeqCst) }
pub fn disk_reset() { let d = &DISK; d.on.store(false, SeqCst); d.open_errno.store(0, SeqCst); d.room.store(usize::MAX, SeqCst); d.full_errno.store(ENOSPC, SeqCst); d.chunk.store(usize::MAX, SeqCst); d.eintr.store(0, SeqCst); d.late_errno.store(0, SeqCst); d.rename_errno.store(0, SeqCst); d.opens.store(0, SeqCst); d.writes.store(0, SeqCst); d.hit.store(0, SeqCst); d.written.store(0, SeqCst); d.pipe_take.store(usize::MAX, SeqCst); d.pipe_got.store(0, SeqCst); d.pipe_eintr.store(0, SeqCst); d.open_nth.store(0, SeqCst); for o in OURS.iter().chain(PIPE.iter()) { o.store(false, SeqCst) } }
unsafe fn inside(p: *const u8) -> bool { let l = DIRLEN.load(Relaxed); if l == 0 || !DISK.on.load(Relaxed) { return false } let d = &raw const DIR as *const u8; let n = strlen(p); n > l && (0..l).all(|i| *p.add(i) == *d.add(i)) && *p.add(l) == b'/' }
fn ours(fd: i32) -> bool { DISK.on.load(Relaxed) && fd >= 0 && fd < 1024 && OURS[fd as usize].load(Relaxed) }
fn pipe_end(fd: i32) -> bool { DISK.on.load(Relaxed) && fd >= 0 && fd < 1024 && PIPE[fd as usize].load(Relaxed) }
unsafe fn do_open(at: i64, p: *const u8, fl: i32, mode: u32) -> i32 {
    let w = fl & 3 != 0 && inside(p);
    if w { let k = DISK.opens.fetch_add(1, Relaxed); let e = DISK.open_errno.load(Relaxed); if e != 0 && k == DISK.open_nth.load(Relaxed) { hit(HIT_OPEN); return ret(-(e as i64)) as i32 } }
    let r = ret(sys(257, at, p as i64, fl as i64, mode as i64, 0, 0)) as i32;
    if r >= 0 && r < 1024 { OURS[r as usize].store(w, Relaxed); PIPE[r as usize].store(false, Relaxed); }
    r
}
#[no_mangle]
pub unsafe extern "C" fn open64(p: *const u8, fl: i32, mode: u32) -> i32 { do_open(-100, p, fl, mode) }
#[no_mangle]
pub unsafe extern "C" fn open(p: *const u8, fl: i32, mode: u32) -> i32 { do_open(-100, p, fl, mode) }
#[no_mangle]
pub unsafe extern "C" fn openat64(d: i32, p: *const u8, fl: i32, mode: u32) -> i32 { do_open(d as i64, p, fl, mode) }
#[no_mangle]
pub unsafe extern "C" fn openat(d: i32, p: *const u8, fl: i32, mode: u32) -> i32 { do_open(d as i64, p, fl, mode) }
#[no_mangle]
pub unsafe extern "C" fn creat64(p: *const u8, mode: u32) -> i32 { do_open(-100, p, 0o1101, mode) }
#[no_mangle]
pub unsafe extern "C" fn pipe2(fds: *mut i32, fl: i32) -> i32 {
    let r = ret(sys(293, fds as i64, fl as i64, 0, 0, 0, 0)) as i32;
    if r == 0 && DISK.on.load(Relaxed) { let w = *fds.add(1); if w < 1024 { PIPE[w as usize].store(true, Relaxed); OURS[w as usize].store(false, Relaxed); } let a = *fds; if a < 1024 { OURS[a as usize].store(false, Relaxed); PIPE[a as usize].store(false, Relaxed); } }
    r
}
/// how much of a write the simulated disk takes; negative: error
unsafe fn take(fd: i32, n: usize) -> Result<usize, i32> {
    if n == 0 || !ours(fd) { return Ok(n) }
    let d = &DISK;
    let k = d.writes.fetch_add(1, Relaxed);
    if d.eintr.load(Relaxed) >> (k & 63) & 1 == 1 { hit(HIT_EINTR); return Err(EINTR) }
    let room = d.room.load(Relaxed);
    if room == 0 { hit(HIT_FULL); return Err(d.full_errno.load(Relaxed)) }
    let c = d.chunk.load(Relaxed);
    if c < n || room < n { hit(HIT_SHORT) }
    Ok(n.min(c).min(room))
}
fn took(fd: i32, n: i64) { if n > 0 && ours(fd) { let r = DISK.room.load(Relaxed); if r != usize::MAX { DISK.room.store(r - (n as usize).min(r), Relaxed) } DISK.written.fetch_add(n as usize, Relaxed); } }
unsafe fn pipe_write(fd: i32, b: *const u8, n: usize) -> i64 {
    let d = &DISK;
    let k = d.writes.fetch_add(1, Relaxed);
    if d.pipe_eintr.load(Relaxed) >> (k & 63) & 1 == 1 { hit(HIT_PIPE_EINTR); return -(EINTR as i64) }
    let lim = d.pipe_take.load(Relaxed);
    if lim == usize::MAX { return sys(1, fd as i64, b as i64, n as i64, 0, 0, 0) }
    // the reader goes away after exactly that much
    let got = d.pipe_got.load(Relaxed);
    if got < lim {
        let r = sys(1, fd as i64, b as i64, n.min(lim - got) as i64, 0, 0, 0);
        if r > 0 { d.pipe_got.fetch_add(r as usize, Relaxed); }
        return r;
    }
    hit(HIT_PIPE);
    let mut p = [fd as u32 as u64, 0u64]; // pollfd with no events: only errors count
    p[0] |= 0 << 32;
    for _ in 0..200 { let r = sys(7, p.as_mut_ptr() as i64, 1, 50, 0, 0, 0); if r > 0 && (p[0] >> 48) & 8 != 0 { break } p[0] &= 0xffff_ffff; }
    sys(1, fd as i64, b as i64, n as i64, 0, 0, 0)
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: i32, b: *const u8, n: usize) -> isize {
    if pipe_end(fd) { return ret(pipe_write(fd, b, n)) as isize }
    match take(fd, n) { Err(e) => ret(-(e as i64)) as isize, Ok(m) => { let r = sys(1, fd as i64, b as i64, m as i64, 0, 0, 0); took(fd, r); ret(r) as isize } }
}
#[no_mangle]
pub unsafe extern "C" fn pwrite64(fd: i32, b: *const u8, n: usize, o: i64) -> isize { match take(fd, n) { Err(e) => ret(-(e as i64)) as isize, Ok(m) => { let r = sys(18, fd as i64, b as i64, m as i64, o, 0, 0); took(fd, r); ret(r) as isize } } }
#[no_mangle]
pub unsafe extern "C" fn writev(fd: i32, v: *const [usize; 2], c: i32) -> isize {
    if !ours(fd) && !pipe_end(fd) { return ret(sys(20, fd as i64, v as i64, c as i64, 0, 0, 0)) as isize }
    for i in 0..c as usize { let x = *v.add(i); if x[1] > 0 { return write(fd, x[0] as *const u8, x[1]) } }
    0
}
#[no_mangle]
pub unsafe extern "C" fn copy_file_range(_: i32, _: *mut i64, _: i32, _: *mut i64, _: usize, _: u32) -> isize { ret(-38) as isize }
#[no_mangle]
pub unsafe extern "C" fn sendfile64(_: i32, _: i32, _: *mut i64, _: usize) -> isize { ret(-38) as isize }
unsafe fn late(fd: i32, call: i64) -> i32 { if ours(fd) { let e = DISK.late_errno.load(Relaxed); if e != 0 { hit(HIT_SYNC); return ret(-(e as i64)) as i32 } } ret(sys(call, fd as i64, 0, 0, 0, 0, 0)) as i32 }
#[no_mangle]
pub unsafe extern "C" fn fsync(fd: i32) -> i32 { late(fd, 74) }
#[no_mangle]
pub unsafe extern "C" fn fdatasync(fd: i32) -> i32 { late(fd, 75) }
#[no_mangle]
pub unsafe extern "C" fn syncfs(fd: i32) -> i32 { late(fd, 306) }
#[no_mangle]
pub unsafe extern "C" fn close(fd: i32) -> i32 {
    if ours(fd) {
        OURS[fd as usize].store(false, Relaxed);
        let e = DISK.late_errno.load(Relaxed);
        if e != 0 {
            // what was only buffered is gone
            hit(HIT_CLOSE);
            sys(77, fd as i64, (DISK.written.load(Relaxed) / 2) as i64, 0, 0, 0, 0);
            sys(3, fd as i64, 0, 0, 0, 0, 0);
            return ret(-(e as i64)) as i32;
        }
    }
    if fd >= 0 && fd < 1024 { PIPE[fd as usize].store(false, Relaxed) }
    ret(sys(3, fd as i64, 0, 0, 0, 0, 0)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn rename(a: *const u8, b: *const u8) -> i32 {
    if inside(b) { let e = DISK.rename_errno.load(Relaxed); if e != 0 { hit(HIT_RENAME); return ret(-(e as i64)) as i32 } }
    ret(sys(82, a as i64, b as i64, 0, 0, 0, 0)) as i32
}
/// what a child process prints on its standard error is of no interest
pub fn quiet_fd2() -> i32 { unsafe { let k = sys(32, 2, 0, 0, 0, 0, 0); let n = sys(257, -100, b"/dev/null\0".as_ptr() as i64, 1, 0, 0, 0); sys(292, n, 2, 0, 0, 0, 0); sys(3, n, 0, 0, 0, 0, 0); sys(72, k, 2, 1, 0, 0, 0); k as i32 } }
pub fn loud_fd2(k: i32) { unsafe { sys(292, k as i64, 2, 0, 0, 0, 0); sys(3, k as i64, 0, 0, 0, 0, 0); } }
