//! Seeded single-threaded executor over virtual time.
use crate::world::*;
use std::future::Future;
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::Relaxed};
use std::sync::Arc;
use std::task::{Context, Poll, Wake, Waker};

struct TaskWake { ready: AtomicBool, wakes: AtomicU64 }
impl Wake for TaskWake { fn wake(self: Arc<Self>) { self.wake_by_ref() } fn wake_by_ref(self: &Arc<Self>) { self.ready.store(true, Relaxed); self.wakes.fetch_add(1, Relaxed); } }
struct Task<'a> { f: Option<Pin<Box<dyn Future<Output = ()> + 'a>>>, w: Arc<TaskWake>, polls: u64, cancel_at: Option<u64> }
pub struct Exec<'a> { pub w: W, tasks: Vec<Task<'a>>, pub polls: u64, pub self_wakes: u64, pub cancelled: Vec<usize>, pub spurious: u64 }
#[derive(Debug, PartialEq, Clone)]
pub enum Stop { Done, /// nobody can make progress any more
    Stuck(Vec<usize>), /// the bound on polls was reached
    Spin }
impl<'a> Exec<'a> {
    pub fn new(w: &W) -> Exec<'a> { Exec { w: w.clone(), tasks: vec![], polls: 0, self_wakes: 0, cancelled: vec![], spurious: 0 } }
    pub fn spawn(&mut self, f: impl Future<Output = ()> + 'a) -> usize { self.tasks.push(Task { f: Some(Box::pin(f)), w: Arc::new(TaskWake { ready: AtomicBool::new(true), wakes: AtomicU64::new(0) }), polls: 0, cancel_at: None }); self.tasks.len() - 1 }
    /// drop the task when it is about to be polled for the n-th time
    pub fn cancel_after(&mut self, task: usize, polls: u64) { self.tasks[task].cancel_at = Some(polls) }
    pub fn polls_of(&self, t: usize) -> u64 { self.tasks[t].polls }
    /// spur: percentage of steps in which a task is polled without having been woken
    pub fn run(&mut self, max_polls: u64, spur: u64) -> Stop {
        loop {
            let live: Vec<usize> = (0..self.tasks.len()).filter(|&i| self.tasks[i].f.is_some()).collect();
            if live.is_empty() { return Stop::Done; }
            let ready: Vec<usize> = live.iter().copied().filter(|&i| self.tasks[i].w.ready.load(Relaxed)).collect();
            let i = if ready.is_empty() {
                // advance virtual time to the next event
                let ev = self.w.events.borrow_mut().pop();
                match ev {
                    Some(e) => { self.w.now.set(self.w.now.get().max(e.at)); e.waker.wake(); continue; }
                    None => return Stop::Stuck(live),
                }
            } else if spur > 0 && live.len() > 0 && self.w.chance(spur, 100) { self.spurious += 1; self.w.fault("spurious_poll"); live[self.w.us(live.len())] }
            else {
                // due events may fire before the ready task runs
                if self.w.events.borrow().peek().map(|e| e.at <= self.w.now.get()).unwrap_or(false) && self.w.chance(1, 2) { let e = self.w.events.borrow_mut().pop().unwrap(); e.waker.wake(); continue; }
                ready[if ready.len() > 1 { self.w.us(ready.len()) } else { 0 }]
            };
            if ready.len() > 1 { self.w.now.set(self.w.now.get() + self.w.below(3)); }
            let t = &mut self.tasks[i];
            if t.cancel_at.map(|c| t.polls >= c).unwrap_or(false) { t.f = None; self.cancelled.push(i); self.w.fault("task_cancelled"); continue; }
            t.w.ready.store(false, Relaxed);
            t.polls += 1;
            self.polls += 1;
            if self.polls > max_polls { return Stop::Spin; }
            self.w.note(0x30000 + i as u64);
            let waker = Waker::from(t.w.clone());
            let mut cx = Context::from_waker(&waker);
            let before = t.w.wakes.load(Relaxed);
            let mut f = t.f.take().unwrap();
            let r = f.as_mut().poll(&mut cx);
            let t = &mut self.tasks[i];
            if t.w.wakes.load(Relaxed) != before { self.self_wakes += 1; }
            if let Poll::Pending = r { t.f = Some(f); }
        }
    }
}
/// polls a single future to completion; used where interleaving does not matter
pub fn block_on<'a, T: 'a>(w: &W, f: impl Future<Output = T> + 'a, max_polls: u64) -> Result<T, Stop> {
    let out = std::rc::Rc::new(std::cell::RefCell::new(None));
    let o2 = out.clone();
    let mut e = Exec::new(w);
    e.spawn(async move { let r = f.await; *o2.borrow_mut() = Some(r); });
    let s = e.run(max_polls, 0);
    drop(e);
    let r = out.borrow_mut().take();
    match r { Some(r) => Ok(r), None => Err(s) }
}
