use psmodel::tape::Tape;
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, BinaryHeap};
use std::rc::Rc;
use std::task::Waker;

pub struct Ev { pub at: u64, pub seq: u64, pub waker: Waker }
impl PartialEq for Ev { fn eq(&self, o: &Ev) -> bool { (self.at, self.seq) == (o.at, o.seq) } }
impl Eq for Ev {}
impl PartialOrd for Ev { fn partial_cmp(&self, o: &Ev) -> Option<std::cmp::Ordering> { Some(self.cmp(o)) } }
impl Ord for Ev { fn cmp(&self, o: &Ev) -> std::cmp::Ordering { (o.at, o.seq).cmp(&(self.at, self.seq)) } }

/// one simulated world: choices, virtual time, pending wake-ups, fault counters
pub struct World {
    pub t: RefCell<Tape>,
    pub now: Cell<u64>,
    pub events: RefCell<BinaryHeap<Ev>>,
    pub seq: Cell<u64>,
    pub faults: RefCell<BTreeMap<&'static str, u64>>,
    /// calls made on simulated streams; bounded so that a livelock ends the run
    pub calls: Cell<u64>,
    pub call_limit: Cell<u64>,
    pub livelock: Cell<bool>,
    /// order-dependent digest of everything that happened
    pub trace: Cell<u64>,
    /// wake-ups handed out by simulated I/O
    pub io_wakes: Cell<u64>,
}
pub type W = Rc<World>;
pub const LIVELOCK: &str = "simulated stream: call limit reached without progress";
impl World {
    pub fn new(t: Tape) -> W {
        Rc::new(World { t: RefCell::new(t), now: Cell::new(0), events: Default::default(), seq: Cell::new(0), faults: Default::default(), calls: Cell::new(0), call_limit: Cell::new(2_000_000), livelock: Cell::new(false), trace: Cell::new(0), io_wakes: Cell::new(0) })
    }
    pub fn below(&self, n: u64) -> u64 { self.t.borrow_mut().below(n) }
    pub fn us(&self, n: usize) -> usize { self.below(n as u64) as usize }
    pub fn range(&self, a: usize, b: usize) -> usize { a + self.us(b - a + 1) }
    pub fn chance(&self, n: u64, d: u64) -> bool { if n == 0 { return false; } self.t.borrow_mut().chance(n, d) }
    pub fn weighted(&self, w: &[u64]) -> usize { self.t.borrow_mut().weighted(w) }
    pub fn fault(&self, k: &'static str) { *self.faults.borrow_mut().entry(k).or_insert(0) += 1; }
    pub fn note(&self, x: u64) { self.trace.set(psmodel::tape::mix(self.trace.get(), x)); }
    pub fn call(&self) {
        let c = self.calls.get() + 1;
        self.calls.set(c);
        // a stream that has panicked does not panic again while that unwinds
        if c > self.call_limit.get() && !(std::thread::panicking() && c < self.call_limit.get().saturating_add(100_000)) { self.livelock.set(true); std::panic::panic_any(LIVELOCK); }
    }
    pub fn wake_at(&self, at: u64, w: &Waker) {
        let s = self.seq.get();
        self.seq.set(s + 1);
        self.io_wakes.set(self.io_wakes.get() + 1);
        self.events.borrow_mut().push(Ev { at, seq: s, waker: w.clone() });
    }
}
