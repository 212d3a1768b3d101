//! Controlled scheduler: logical threads are coroutines on one OS thread; every access to shared
//! memory is announced before it is performed, and the explorer decides whose access is next.
//! Dynamic partial-order reduction (Flanagan-Godefroid) with sleep sets.
use std::any::Any;
use std::cell::{Cell, RefCell};
use std::collections::HashMap;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};

use corosensei::stack::DefaultStack;
use corosensei::{Coroutine, CoroutineResult, Yielder};

use crate::engine::{die, with_exec};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Kind {
    Load,
    /// Sets bits and looks at nothing (commutes with every other blind Or).
    OrBlind,
    /// Sets the bits of `mask` and looks at their old value.
    Or,
    Write,
}
#[derive(Clone, Copy, Debug)]
pub struct Access {
    pub addr: usize,
    pub kind: Kind,
    /// The bits of the location concerned.
    pub mask: u64,
}
fn dependent(a: &Access, b: &Access) -> bool {
    a.addr == b.addr && a.mask & b.mask != 0 && !(a.kind == b.kind && matches!(a.kind, Kind::Load | Kind::OrBlind))
}

enum Y {
    Access(Access),
    Spawn(Vec<Box<dyn FnOnce()>>),
    /// Until the lock at this address is released (0: until another thread changes anything).
    Wait(usize),
}
type Co = Coroutine<(), Y, (), DefaultStack>;

struct Thread {
    co: Option<Co>,
    pending: Option<Access>,
    blocked: Option<usize>,
    waiting: u32,
    parent: Option<usize>,
    clock: Vec<u32>,
    seq: u32,
}
struct Event {
    tid: usize,
    seq: u32,
    access: Access,
    clock: Vec<u32>,
    node: Option<usize>,
}
#[derive(Default)]
struct Sched {
    threads: Vec<Thread>,
    trace: Vec<Event>,
    by_addr: HashMap<usize, Vec<usize>, std::hash::BuildHasherDefault<AddrHasher>>,
}
#[derive(Default)]
struct AddrHasher(u64);
impl std::hash::Hasher for AddrHasher {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, _: &[u8]) {}
    fn write_usize(&mut self, i: usize) {
        self.0 = (i as u64).wrapping_mul(0x9E3779B97F4A7C15);
    }
}

thread_local! {
    static STACKS: RefCell<Vec<DefaultStack>> = const { RefCell::new(Vec::new()) };
    static YIELDER: Cell<*const Yielder<(), Y>> = const { Cell::new(std::ptr::null()) };
    static TID: Cell<usize> = const { Cell::new(usize::MAX) };
    static ACTIVE: Cell<bool> = const { Cell::new(false) };
    static WAKE: RefCell<Vec<usize>> = const { RefCell::new(Vec::new()) };
    static WROTE: Cell<bool> = const { Cell::new(false) };
}
const STACK: usize = 256 << 10;
const HORIZON: usize = 20_000;

pub(crate) fn drop_stacks() {
    STACKS.with(|s| s.borrow_mut().clear());
}

fn join_clock(a: &mut Vec<u32>, b: &[u32]) {
    if a.len() < b.len() {
        a.resize(b.len(), 0);
    }
    for (x, y) in a.iter_mut().zip(b) {
        *x = (*x).max(*y);
    }
}

impl Sched {
    fn spawn(&mut self, parent: Option<usize>, f: Box<dyn FnOnce()>) -> usize {
        let tid = self.threads.len();
        if tid >= 60 {
            die("too many logical threads");
        }
        let stack = STACKS
            .with(|s| s.borrow_mut().pop())
            .unwrap_or_else(|| DefaultStack::new(STACK).unwrap());
        let co: Co = Coroutine::with_stack(stack, move |y: &Yielder<(), Y>, ()| {
            YIELDER.with(|c| c.set(y as *const _));
            f();
        });
        let mut clock = parent.map_or(vec![], |p| self.threads[p].clock.clone());
        if clock.len() <= tid {
            clock.resize(tid + 1, 0);
        }
        self.threads.push(Thread { co: Some(co), pending: None, blocked: None, waiting: 0, parent, clock, seq: 0 });
        tid
    }
    /// Runs thread `t` until its next announced access, its next join, or its end.
    fn resume(&mut self, t: usize) {
        loop {
            let mut co = self.threads[t].co.take().unwrap();
            let (py, pt) = (YIELDER.with(|c| c.get()), TID.with(|c| c.get()));
            TID.with(|c| c.set(t));
            if let Some(y) = SAVED.with(|s| s.borrow().get(t).copied().flatten()) {
                YIELDER.with(|c| c.set(y));
            }
            let r = co.resume(());
            let y = YIELDER.with(|c| c.get());
            SAVED.with(|s| {
                let mut s = s.borrow_mut();
                if s.len() <= t {
                    s.resize(t + 1, None);
                }
                s[t] = Some(y);
            });
            YIELDER.with(|c| c.set(py));
            TID.with(|c| c.set(pt));
            match r {
                CoroutineResult::Yield(Y::Access(a)) => {
                    self.threads[t].co = Some(co);
                    self.threads[t].pending = Some(a);
                    return;
                }
                CoroutineResult::Yield(Y::Wait(a)) => {
                    self.threads[t].co = Some(co);
                    self.threads[t].blocked = Some(a);
                    return;
                }
                CoroutineResult::Yield(Y::Spawn(fs)) => {
                    self.threads[t].co = Some(co);
                    self.threads[t].waiting = fs.len() as u32 + 1;
                    let kids: Vec<usize> = fs.into_iter().map(|f| self.spawn(Some(t), f)).collect();
                    for k in kids {
                        self.resume(k);
                    }
                    self.threads[t].waiting -= 1;
                    if self.threads[t].waiting > 0 {
                        return;
                    }
                }
                CoroutineResult::Return(()) => {
                    STACKS.with(|s| s.borrow_mut().push(co.into_stack()));
                    if let Some(p) = self.threads[t].parent {
                        let c = self.threads[t].clock.clone();
                        join_clock(&mut self.threads[p].clock, &c);
                        self.threads[p].waiting -= 1;
                        if self.threads[p].waiting == 0 {
                            self.resume(p);
                        }
                    }
                    return;
                }
            }
        }
    }
    fn enabled(&self) -> u64 {
        let mut m = 0;
        for (i, t) in self.threads.iter().enumerate() {
            if t.pending.is_some() {
                m |= 1 << i;
            }
        }
        m
    }
    /// Source-DPOR: the event `ei`, just executed, is in a reversible race with the earlier event
    /// `i`; make sure the other order is explored from the state before `i`.
    fn add_race(&self, i: usize, ei: usize) {
        let e = &self.trace[i];
        let Some(node) = e.node else { return };
        let hb = |f: &Event, g: &Event| g.clock.get(f.tid).copied().unwrap_or(0) >= f.seq;
        let mut initials = 0u64;
        let mut v: Vec<&Event> = vec![];
        for f in self.trace[i + 1..ei].iter().filter(|f| !hb(e, f)).chain(std::iter::once(&self.trace[ei])) {
            if !v.iter().any(|g| hb(g, f)) {
                initials |= 1 << f.tid;
            }
            v.push(f);
        }
        with_exec(|x| x.add_backtrack(node, initials, self.trace[ei].tid));
    }
    fn run(&mut self, roots: Vec<Box<dyn FnOnce()>>) {
        let ids: Vec<usize> = roots.into_iter().map(|f| self.spawn(None, f)).collect();
        for t in ids {
            self.resume(t);
        }
        let mut sleep = 0u64;
        let mut n = 0usize;
        loop {
            let enabled = self.enabled();
            let stuck = self.threads.iter().any(|t| t.blocked.is_some());
            if enabled == 0 && !stuck {
                break;
            }
            n += 1;
            if n > HORIZON || enabled == 0 {
                crate::fail(if enabled == 0 {
                    "no progress: every unfinished thread waits for another one"
                } else {
                    "no progress: an operation did not terminate within the step horizon"
                });
                // Abandon the coroutines: they cannot be finished.
                for t in self.threads.iter_mut() {
                    if let Some(co) = t.co.take() {
                        std::mem::forget(co);
                    }
                    t.pending = None;
                    t.blocked = None;
                }
                return;
            }
            let (t, node, sl) = with_exec(|e| {
                if !e.replay && !e.redundant {
                    e.sched_steps += 1;
                }
                e.sched(enabled, sleep)
            })
            .unwrap();
            let t = t.unwrap() as usize;
            let a = self.threads[t].pending.take().unwrap();
            // Threads asleep stay asleep unless this access interferes with theirs.
            sleep = sl & !(1 << t);
            for q in 0..self.threads.len() {
                if sleep & (1 << q) != 0 {
                    match self.threads[q].pending {
                        Some(b) if !dependent(&a, &b) => {}
                        _ => sleep &= !(1 << q),
                    }
                }
            }
            // Execute: happens-before after every dependent earlier access.
            let list = self.by_addr.entry(a.addr).or_default();
            let mut clock = std::mem::take(&mut self.threads[t].clock);
            let mut races: Vec<usize> = vec![];
            for &i in list.iter() {
                let e = &self.trace[i];
                if dependent(&e.access, &a) && clock.get(e.tid).copied().unwrap_or(0) < e.seq {
                    // not a direct race any more if `e` itself comes before this one
                    races.retain(|&r| {
                        let r = &self.trace[r];
                        e.clock.get(r.tid).copied().unwrap_or(0) < r.seq
                    });
                    races.push(i);
                }
            }
            for &i in &races {
                join_clock(&mut clock, &self.trace[i].clock);
            }
            self.threads[t].seq += 1;
            let seq = self.threads[t].seq;
            if clock.len() <= t {
                clock.resize(t + 1, 0);
            }
            clock[t] = seq;
            let ei = self.trace.len();
            list.push(ei);
            self.trace.push(Event { tid: t, seq, access: a, clock: clock.clone(), node });
            self.threads[t].clock = clock;
            if !with_exec(|e| e.redundant || e.replay).unwrap() {
                for i in races {
                    self.add_race(i, ei);
                }
            }
            crate::note(|| format!("[t{t}]"));
            WROTE.with(|w| w.set(false));
            self.resume(t);
            // Whoever waited for what this step did goes on (and comes after it).
            let freed = WAKE.with(|w| std::mem::take(&mut *w.borrow_mut()));
            let wrote = WROTE.with(|w| w.replace(false));
            if wrote || !freed.is_empty() {
                for q in 0..self.threads.len() {
                    match self.threads[q].blocked {
                        Some(0) if wrote && q != t => {}
                        Some(a) if a != 0 && freed.contains(&a) => {}
                        _ => continue,
                    }
                    self.threads[q].blocked = None;
                    let c = self.trace[ei].clock.clone();
                    join_clock(&mut self.threads[q].clock, &c);
                    self.resume(q);
                }
            }
        }
    }
}
thread_local! {
    static SAVED: RefCell<Vec<Option<*const Yielder<(), Y>>>> = const { RefCell::new(Vec::new()) };
}

/// Index of the running logical thread, if any.
pub fn current() -> Option<usize> {
    let t = TID.with(|c| c.get());
    if t == usize::MAX {
        None
    } else {
        Some(t)
    }
}
/// Announces an access; returns when it is this thread's turn to perform it.
#[inline]
pub fn point(addr: usize, kind: Kind, mask: u64) {
    if TID.with(|c| c.get()) == usize::MAX {
        return;
    }
    let y = YIELDER.with(|c| c.get());
    unsafe { (*y).suspend(Y::Access(Access { addr, kind, mask })) };
}

/// The running thread cannot go on until `wake(addr)` (addr != 0); false outside the explorer.
pub fn wait(addr: usize) -> bool {
    if TID.with(|c| c.get()) == usize::MAX {
        return false;
    }
    let y = YIELDER.with(|c| c.get());
    unsafe { (*y).suspend(Y::Wait(addr)) };
    true
}
/// The running thread polls: it cannot learn anything new before another thread changes something.
pub fn spin() -> bool {
    wait(0)
}
pub fn wake(addr: usize) {
    if TID.with(|c| c.get()) != usize::MAX {
        WAKE.with(|w| w.borrow_mut().push(addr));
    }
}
/// Shared memory was changed by the running thread.
#[inline]
pub fn wrote() {
    WROTE.with(|w| w.set(true));
}

fn erase<'a>(f: Box<dyn FnOnce() + 'a>) -> Box<dyn FnOnce() + 'static> {
    // Sound because run_threads / spawn_join do not return before every closure has finished
    // (or, past the horizon, the closure's coroutine is leaked and never resumed).
    unsafe { std::mem::transmute(f) }
}
type Payload = Box<dyn Any + Send>;

/// Runs the closures as logical threads under the explorer, returning when all have ended.
/// A panic that escapes one of them is returned.
pub fn run_threads<'a>(fs: Vec<Box<dyn FnOnce() + 'a>>) -> Vec<Result<(), Payload>> {
    let n = fs.len();
    let res: Vec<RefCell<Option<Result<(), Payload>>>> = (0..n).map(|_| RefCell::new(None)).collect();
    {
        let res = &res;
        let wrapped: Vec<Box<dyn FnOnce()>> = fs
            .into_iter()
            .enumerate()
            .map(|(i, f)| {
                erase(Box::new(move || {
                    let r = catch_unwind(AssertUnwindSafe(f));
                    *res[i].borrow_mut() = Some(r);
                }))
            })
            .collect();
        if current().is_some() {
            let y = YIELDER.with(|c| c.get());
            unsafe { (*y).suspend(Y::Spawn(wrapped)) };
        } else {
            if ACTIVE.with(|a| a.replace(true)) {
                die("nested scheduler");
            }
            SAVED.with(|s| s.borrow_mut().clear());
            let mut s = Sched::default();
            s.run(wrapped);
            ACTIVE.with(|a| a.set(false));
        }
    }
    res.into_iter()
        .map(|r| r.into_inner().unwrap_or_else(|| Err(Box::new("did not finish".to_string()))))
        .collect()
}
/// Fork-join: both run to their end, in any interleaving; then a panic of either is resumed.
pub fn spawn_join<A, B, RA, RB>(a: A, b: B) -> (RA, RB)
where
    A: FnOnce() -> RA,
    B: FnOnce() -> RB,
{
    let (ra, rb) = (RefCell::new(None), RefCell::new(None));
    let out = run_threads(vec![
        Box::new(|| {
            let v = a();
            *ra.borrow_mut() = Some(v);
        }),
        Box::new(|| {
            let v = b();
            *rb.borrow_mut() = Some(v);
        }),
    ]);
    for o in out {
        if let Err(e) = o {
            resume_unwind(e);
        }
    }
    (ra.into_inner().unwrap(), rb.into_inner().unwrap())
}

/// Data that must not be accessed by two threads at once, one of them writing.  Each access takes
/// two schedulable steps, so overlapping accesses are found whenever they are possible.
pub struct ModelCell<T> {
    v: std::cell::UnsafeCell<T>,
    readers: Cell<u32>,
    writers: Cell<u32>,
    pub name: Cell<&'static str>,
}
unsafe impl<T: Sync> Sync for ModelCell<T> {}
impl<T: Default> Default for ModelCell<T> {
    fn default() -> Self {
        ModelCell::new(T::default())
    }
}
impl<T> ModelCell<T> {
    pub fn new(v: T) -> Self {
        ModelCell {
            v: std::cell::UnsafeCell::new(v),
            readers: Cell::new(0),
            writers: Cell::new(0),
            name: Cell::new("value"),
        }
    }
    fn addr(&self) -> usize {
        self.v.get() as *const u8 as usize ^ 0x4000_0000_0000_0000
    }
    pub fn read<R>(&self, f: impl FnOnce(&T) -> R) -> R {
        point(self.addr(), Kind::Load, !0);
        self.readers.set(self.readers.get() + 1);
        if self.writers.get() > 0 {
            crate::fail(format!("data race: {} read while another thread writes it", self.name.get()));
        }
        point(self.addr(), Kind::Load, !0);
        if self.writers.get() > 0 {
            crate::fail(format!("data race: {} written while another thread reads it", self.name.get()));
        }
        self.readers.set(self.readers.get() - 1);
        f(unsafe { &*self.v.get() })
    }
    /// Exclusive access as the program sees it (`&mut self`), checked against every other access.
    pub fn write<R>(&mut self, f: impl FnOnce(&mut T) -> R) -> R {
        point(self.addr(), Kind::Write, !0);
        if self.readers.get() + self.writers.get() > 0 {
            crate::fail(format!("data race: {} written while another thread accesses it", self.name.get()));
        }
        self.writers.set(self.writers.get() + 1);
        point(self.addr(), Kind::Write, !0);
        if self.writers.get() > 1 || self.readers.get() > 0 {
            crate::fail(format!("data race: {} accessed while another thread writes it", self.name.get()));
        }
        self.writers.set(self.writers.get() - 1);
        f(unsafe { &mut *self.v.get() })
    }
    pub fn peek(&self) -> &T {
        unsafe { &*self.v.get() }
    }
}
