//! Choice-vector exploration: stateless depth-first search over everything the body asks for.
use std::cell::{Cell, RefCell};
use std::collections::HashSet;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::{Condvar, Mutex};
use std::time::Instant;

use crate::sup::Slot;
use crate::Res;

#[derive(Clone, Debug)]
pub(crate) enum Node {
    Choice { cur: u32, n: u32 },
    Sched { cur: u32, enabled: u64, backtrack: u64, done: u64, sleep: u64 },
}
impl Node {
    fn cur(&self) -> u32 {
        match *self {
            Node::Choice { cur, .. } | Node::Sched { cur, .. } => cur,
        }
    }
}

pub(crate) struct Exec {
    pub stack: Vec<Node>,
    /// Forced values of the first choices (a donated prefix or a replayed vector).
    forced: Vec<u32>,
    pos: usize,
    fresh_from: usize,
    pub replay: bool,
    pub redundant: bool,
    slot: Option<&'static Slot>,
    trace: Vec<String>,
    path: Vec<u32>,
    pub fails: Vec<String>,
    spurious_left: u32,
    /// No reduction: every interleaving (self-test of the reduction).
    pub brute: bool,
    // statistics
    states: u64,
    transitions: u64,
    pub sched_steps: u64,
    fps: HashSet<u64>,
    outcomes: HashSet<u64>,
    fps_capped: bool,
    max_depth: usize,
}
const FP_CAP: usize = 1_500_000;

impl Exec {
    fn new(slot: Option<&'static Slot>) -> Exec {
        Exec {
            stack: vec![],
            forced: vec![],
            pos: 0,
            fresh_from: 0,
            replay: false,
            redundant: false,
            slot,
            trace: vec![],
            path: vec![],
            fails: vec![],
            spurious_left: 0,
            brute: false,
            states: 0,
            transitions: 0,
            sched_steps: 0,
            fps: HashSet::new(),
            outcomes: HashSet::new(),
            fps_capped: false,
            max_depth: 0,
        }
    }
    fn record(&mut self, v: u32) {
        if let Some(s) = self.slot {
            s.push(v);
        }
        self.path.push(v);
        self.pos += 1;
        self.max_depth = self.max_depth.max(self.pos);
    }
    fn choose(&mut self, n: u32) -> u32 {
        assert!(n > 0, "choose(0)");
        if self.redundant || n == 1 {
            return 0;
        }
        let p = self.pos;
        let v = if self.replay {
            let v = self.forced.get(p).copied().unwrap_or(0);
            if v >= n {
                die(&format!("replay diverged at choice {p}: value {v} of {n}"));
            }
            v
        } else if p < self.stack.len() {
            match self.stack[p] {
                Node::Choice { cur, n: m } if m >= 1 => {
                    // n in the node may have been reduced by donating alternatives.
                    if cur >= n {
                        die(&format!("nondeterministic body: choice {p} had value {cur} but now only {n} alternatives"));
                    }
                    cur
                }
                _ => die(&format!("nondeterministic body: choice {p} was a scheduling point before")),
            }
        } else if p < self.forced.len() {
            let v = self.forced[p];
            if v >= n {
                die(&format!("nondeterministic body: donated choice {p} = {v} of {n}"));
            }
            self.stack.push(Node::Choice { cur: v, n: v + 1 });
            v
        } else {
            self.stack.push(Node::Choice { cur: 0, n });
            0
        };
        self.record(v);
        v
    }
    /// Picks the logical thread to run.  None: this execution is redundant from here.
    pub fn sched(&mut self, enabled: u64, sleep: u64) -> (Option<u32>, Option<usize>, u64) {
        if self.redundant || enabled.count_ones() == 1 {
            let t = enabled.trailing_zeros();
            if !self.redundant && sleep & enabled != 0 {
                self.redundant = true;
            }
            return (Some(t), None, sleep);
        }
        let p = self.pos;
        if self.replay {
            let t = match self.forced.get(p) {
                Some(&t) => t,
                None => enabled.trailing_zeros(),
            };
            if enabled & (1 << t) == 0 {
                die(&format!("replay diverged at scheduling point {p}"));
            }
            self.record(t);
            return (Some(t), None, 0);
        }
        if p < self.stack.len() {
            let (t, en, sl) = match &self.stack[p] {
                Node::Sched { cur, enabled: e, sleep, done, .. } => (*cur, *e, if self.brute { 0 } else { *sleep | *done }),
                _ => die(&format!("nondeterministic body: choice {p} is a scheduling point now")),
            };
            if en != enabled {
                die(&format!("nondeterministic body: enabled threads differ at {p}: {en:b} {enabled:b}"));
            }
            self.record(t);
            return (Some(t), Some(p), sl & !(1 << t));
        }
        if self.brute {
            let t = enabled.trailing_zeros();
            self.stack.push(Node::Sched { cur: t, enabled, backtrack: enabled, done: 0, sleep: 0 });
            self.record(t);
            return (Some(t), Some(p), 0);
        }
        let avail = enabled & !sleep;
        if avail == 0 {
            self.redundant = true;
            return (Some(enabled.trailing_zeros()), None, sleep);
        }
        let t = avail.trailing_zeros();
        self.stack.push(Node::Sched { cur: t, enabled, backtrack: 1 << t, done: 0, sleep });
        self.record(t);
        (Some(t), Some(p), sleep)
    }
    pub fn add_backtrack(&mut self, node: usize, initials: u64, prefer: usize) {
        if let Some(Node::Sched { enabled, backtrack, sleep, done, .. }) = self.stack.get_mut(node) {
            if initials & (*backtrack | *sleep | *done) != 0 {
                return;
            }
            let q = if initials & (1 << prefer) != 0 { prefer as u32 } else { initials.trailing_zeros() };
            if *enabled & (1 << q) == 0 {
                // cannot be: but then every alternative is explored
                *backtrack |= *enabled;
                return;
            }
            *backtrack |= 1 << q;
        }
    }
    fn begin(&mut self) {
        self.pos = 0;
        self.redundant = false;
        self.trace.clear();
        self.path.clear();
        self.fails.clear();
        self.spurious_left = 1;
        if let Some(s) = self.slot {
            s.begin(self.fresh_from as u32);
        }
    }
    /// Moves to the next unexplored vector; false when the tree below `base` is exhausted.
    fn advance(&mut self, base: usize) -> bool {
        while self.stack.len() > base {
            let i = self.stack.len() - 1;
            match &mut self.stack[i] {
                Node::Choice { cur, n } => {
                    if *cur + 1 < *n {
                        *cur += 1;
                        self.fresh_from = i + 1;
                        return true;
                    }
                }
                Node::Sched { cur, backtrack, done, sleep, .. } => {
                    *done |= 1 << *cur;
                    let avail = *backtrack & !*done & !*sleep;
                    if avail != 0 {
                        *cur = avail.trailing_zeros();
                        self.fresh_from = i + 1;
                        return true;
                    }
                }
            }
            self.stack.pop();
        }
        false
    }
    /// The shallowest alternatives that can be handed to another worker.
    fn donate(&mut self, base: usize) -> Vec<Vec<u32>> {
        for i in base..self.stack.len() {
            match self.stack[i] {
                Node::Choice { cur, n } => {
                    if cur + 1 < n {
                        let prefix: Vec<u32> = self.stack[..i].iter().map(|x| x.cur()).collect();
                        let out = (cur + 1..n)
                            .map(|j| {
                                let mut p = prefix.clone();
                                p.push(j);
                                p
                            })
                            .collect();
                        self.stack[i] = Node::Choice { cur, n: cur + 1 };
                        return out;
                    }
                }
                Node::Sched { .. } => return vec![],
            }
        }
        vec![]
    }
}

thread_local! {
    static CUR: Cell<*mut Exec> = const { Cell::new(std::ptr::null_mut()) };
    static QUIET: RefCell<bool> = const { RefCell::new(true) };
}
pub(crate) fn with_exec<T>(f: impl FnOnce(&mut Exec) -> T) -> Option<T> {
    let p = CUR.with(|c| c.get());
    if p.is_null() {
        None
    } else {
        Some(f(unsafe { &mut *p }))
    }
}

/// A machinery error: never a verdict.
pub fn die(msg: &str) -> ! {
    eprintln!("ENGINE-ERROR {msg}");
    eprintln!("{}", std::backtrace::Backtrace::force_capture());
    unsafe { libc::_exit(97) }
}

/// One of `n` alternatives; every one is explored.
pub fn choose(n: usize) -> usize {
    with_exec(|e| e.choose(n as u32)).expect("choose outside explore") as usize
}
pub fn choose_bool() -> bool {
    choose(2) == 1
}
pub fn pick<'a, T>(xs: &'a [T]) -> &'a T {
    &xs[choose(xs.len())]
}
/// The space being explored observes at every point of every execution.
static WATCHED: AtomicBool = AtomicBool::new(false);
/// Whether the current point was not already checked by an earlier execution with this prefix.
pub fn fresh() -> bool {
    with_exec(|e| !e.redundant && (e.pos >= e.fresh_from || WATCHED.load(Ordering::Relaxed))).unwrap_or(true)
}
pub fn redundant() -> bool {
    with_exec(|e| e.redundant).unwrap_or(false)
}
/// Adds a line to the readable trace (only rendered when replaying).
pub fn note(f: impl FnOnce() -> String) {
    with_exec(|e| {
        if e.replay {
            let s = f();
            e.trace.push(s);
        }
    });
}
/// Records a violation from anywhere inside the body.
pub fn fail(msg: impl Into<String>) {
    let m = msg.into();
    with_exec(|e| e.fails.push(m));
}
/// A state reached and checked.
pub fn state(fp: u64) {
    with_exec(|e| {
        if e.replay || e.redundant {
            return;
        }
        e.states += 1;
        if e.fps.len() < FP_CAP {
            e.fps.insert(fp);
        } else {
            e.fps_capped = true;
        }
    });
}
/// An operation executed for the first time with this prefix.
pub fn step() {
    with_exec(|e| {
        if !e.replay && !e.redundant && e.pos >= e.fresh_from {
            e.transitions += 1;
        }
    });
}
pub fn steps(n: u64) {
    with_exec(|e| {
        if !e.replay && !e.redundant {
            e.transitions += n;
        }
    });
}
/// A final outcome of an execution (to show that executions differ).
pub fn outcome(fp: u64) {
    with_exec(|e| {
        if !e.replay && e.outcomes.len() < FP_CAP {
            e.outcomes.insert(fp);
        }
    });
}
/// Asked by the shim's `compare_exchange_weak`: fail spuriously here?
pub fn spurious() -> bool {
    with_exec(|e| {
        if e.redundant || e.spurious_left == 0 {
            return false;
        }
        let f = e.choose(2) == 1;
        if f {
            e.spurious_left -= 1;
        }
        f
    })
    .unwrap_or(false)
}

#[derive(Clone, Debug, Default)]
pub struct SpaceResult {
    pub label: String,
    pub rule: String,
    pub executions: u64,
    pub redundant: u64,
    pub states: u64,
    pub distinct: u64,
    pub transitions: u64,
    pub outcomes: u64,
    pub max_depth: u64,
    pub complete: bool,
    pub fp_capped: bool,
    pub wall_s: f64,
    pub samples: Vec<String>,
}
#[derive(Clone, Debug)]
pub struct Violation {
    pub label: String,
    pub choices: Vec<u32>,
    /// observations were made from this choice on (the prefix had been observed before)
    pub fresh: usize,
    pub msg: String,
    pub trace: Vec<String>,
}

struct Shared {
    queue: Mutex<(Vec<Vec<u32>>, usize, bool)>, // prefixes, busy workers, stop
    cv: Condvar,
    hungry: AtomicUsize,
    stop: AtomicBool,
}

pub struct Ctx {
    pub thorough: bool,
    pub seed: u64,
    pub(crate) deadline: Instant,
    pub(crate) results: Vec<SpaceResult>,
    pub violation: Option<Violation>,
    pub known: Vec<(String, String)>,
    pub(crate) target: Option<(String, Vec<u32>)>,
    pub(crate) target_fresh: usize,
    pub(crate) replayed: Option<(Result<(), String>, Vec<String>)>,
    pub(crate) slots: Option<&'static [Slot]>,
    pub threads: usize,
    pub(crate) prefix: String,
    pub(crate) verbose: bool,
}

impl Ctx {
    /// quick or thorough value of a bound
    pub fn q<T>(&self, quick: T, thorough: T) -> T {
        if self.thorough {
            thorough
        } else {
            quick
        }
    }

    /// Whether `explore` would run this space (a replay runs only one).
    pub fn wants(&self, label: &str) -> bool {
        match &self.target {
            Some((t, _)) => *t == format!("{}/{}", self.prefix, label),
            None => self.violation.is_none(),
        }
    }
    /// The spaces explored by `f` make their observations also where an earlier execution with the
    /// same prefix made them, so that effects of observing are part of every history.
    pub fn watched(&mut self, f: impl FnOnce(&mut Ctx)) {
        WATCHED.store(true, Ordering::Relaxed);
        f(self);
        WATCHED.store(false, Ordering::Relaxed);
    }
    /// Explores every choice vector of `body`.
    pub fn explore(&mut self, label: &str, rule: &str, body: impl Fn() -> Res + Sync) {
        let mut label = format!("{}/{}", self.prefix, label);
        let mut rule = rule.to_string();
        if WATCHED.load(Ordering::Relaxed) {
            label += ", watched";
            rule += "; every execution makes all the observations, so that effects of looking are part of every history";
        }
        if let Some((t, v)) = self.target.clone() {
            if t == label {
                self.replayed = Some(replay_until(&v, self.target_fresh, &body));
            }
            return;
        }
        if self.violation.is_some() {
            return;
        }
        let start = Instant::now();
        let sh = Shared {
            queue: Mutex::new((vec![vec![]], 0, false)),
            cv: Condvar::new(),
            hungry: AtomicUsize::new(0),
            stop: AtomicBool::new(false),
        };
        let nt = self.threads;
        let deadline = self.deadline;
        let slots = self.slots;
        let mut total = SpaceResult { label: label.clone(), rule: rule.clone(), complete: true, ..Default::default() };
        let mut all_fps: HashSet<u64> = HashSet::new();
        let mut all_out: HashSet<u64> = HashSet::new();
        let mut sample_paths: Vec<Vec<u32>> = vec![];
        let mut found: Option<(Vec<u32>, usize, String)> = None;
        std::thread::scope(|sc| {
            let mut hs = vec![];
            for w in 0..nt {
                let (sh, body, label) = (&sh, &body, &label);
                let slot = slots.map(|s| &s[w]);
                hs.push(
                    std::thread::Builder::new()
                        .stack_size(16 << 20)
                        .spawn_scoped(sc, move || worker(sh, body, slot, label, deadline, nt))
                        .unwrap(),
                );
            }
            for h in hs {
                let r = h.join().unwrap_or_else(|_| die("worker thread panicked"));
                let (ex, execs, red, complete, paths, viol) = r;
                total.executions += execs;
                total.redundant += red;
                total.states += ex.states;
                total.transitions += ex.transitions + ex.sched_steps;
                total.max_depth = total.max_depth.max(ex.max_depth as u64);
                total.complete &= complete;
                total.fp_capped |= ex.fps_capped;
                if all_fps.is_empty() {
                    all_fps = ex.fps;
                } else {
                    all_fps.extend(ex.fps);
                }
                all_out.extend(ex.outcomes);
                sample_paths.extend(paths);
                if let Some(v) = viol {
                    // shortest, then least, vector: the same report whatever the worker timing
                    let better = match &found {
                        None => true,
                        Some(f) => (v.0.len(), &v.0) < (f.0.len(), &f.0),
                    };
                    if better {
                        found = Some(v);
                    }
                }
            }
        });
        total.distinct = all_fps.len() as u64;
        total.outcomes = all_out.len() as u64;
        total.wall_s = start.elapsed().as_secs_f64();
        if let Some((path, fresh, msg)) = found {
            // The same observations at the same points: where looking changes the state (a defect
            // in itself), an execution that looks more often need not fail.
            match confirm(&path, fresh, &body) {
                Some((msg, trace)) => {
                    self.violation = Some(Violation { label: label.clone(), choices: path, fresh, msg, trace })
                }
                None => die(&format!(
                    "a failing execution of {label} did not reproduce in {RETRIES} attempts: {msg:?}; choices {path:?}"
                )),
            }
        } else {
            sample_paths.sort();
            sample_paths.dedup();
            let k = sample_paths.len();
            let idx: Vec<usize> = if k == 0 { vec![] } else { vec![k / 2] };
            for i in idx {
                let (r, t) = run_replay(&sample_paths[i], 0, &body);
                let (r2, t2) = run_replay(&sample_paths[i], 0, &body);
                if r.is_err() || r2.is_err() {
                    match confirm(&sample_paths[i], 0, &body) {
                        Some((msg, trace)) => {
                            let choices = sample_paths[i].clone();
                            self.violation = Some(Violation { label: label.clone(), choices, fresh: 0, msg, trace });
                            break;
                        }
                        None => die(&format!("replaying a passing execution of {label} gave {r:?} {r2:?}")),
                    }
                }
                if t != t2 {
                    die(&format!("two replays of an execution of {label} took different steps"));
                }
                let mut s = format!("choices={:?}: {}", sample_paths[i], t.join(" ; "));
                if s.len() > 1200 {
                    let mut cut = 1200;
                    while !s.is_char_boundary(cut) {
                        cut -= 1;
                    }
                    s.truncate(cut);
                    s.push_str(" ...");
                }
                total.samples.push(s);
            }
        }
        if self.verbose {
            eprintln!(
                "  {:<46} exec {:>9} red {:>8} states {:>9} distinct {:>8} trans {:>9} out {:>6} depth {:>3} {} {:.2}s",
                total.label, total.executions, total.redundant, total.states, total.distinct,
                total.transitions, total.outcomes, total.max_depth,
                if total.complete { "complete" } else { "CAPPED" }, total.wall_s
            );
        }
        self.results.push(total);
    }
}

pub(crate) fn set_quiet_hook() {
    std::panic::set_hook(Box::new(|info| {
        if std::env::var_os("MCX_LOUD").is_some() {
            eprintln!("panic: {info}");
        }
    }));
}

fn run_one(ex: &mut Exec, body: &(impl Fn() -> Res + Sync)) -> Res {
    ex.begin();
    CUR.with(|c| c.set(ex as *mut Exec));
    crate::token::reset();
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| body()));
    CUR.with(|c| c.set(std::ptr::null_mut()));
    if let Some(s) = ex.slot {
        s.end();
    }
    let r = match r {
        Ok(r) => r,
        Err(e) => {
            let m = crate::panic_msg(&e);
            Err(format!("unexpected panic: {m}"))
        }
    };
    if let Some(f) = ex.fails.first() {
        return Err(f.clone());
    }
    r
}
/// How often a failing execution is repeated where one repetition does not fail: the iteration order
/// of std's hash sets differs from run to run, and a defect may need one of several orders.
const RETRIES: usize = 400;
/// Repeats a failing execution until it has failed twice more; the message and steps of the last.
fn confirm(v: &[u32], fresh: usize, body: &(impl Fn() -> Res + Sync)) -> Option<(String, Vec<String>)> {
    let mut failed = 0;
    for n in 1..=RETRIES {
        if let (Err(mut m), t) = run_replay(v, fresh, body) {
            failed += 1;
            if failed == 2 {
                if n > 2 {
                    m += &format!(" (in some repetitions of this execution only: 2 of {n})");
                }
                return Some((m, t));
            }
        }
    }
    None
}
/// For the replay command: the first failing repetition, or the last.
fn replay_until(v: &[u32], fresh: usize, body: &(impl Fn() -> Res + Sync)) -> (Result<(), String>, Vec<String>) {
    let mut r = run_replay(v, fresh, body);
    for _ in 1..RETRIES {
        if r.0.is_err() || std::env::var_os("MCX_ONCE").is_some() {
            break;
        }
        r = run_replay(v, fresh, body);
    }
    r
}
fn run_replay(v: &[u32], fresh: usize, body: &(impl Fn() -> Res + Sync)) -> (Result<(), String>, Vec<String>) {
    let mut out = None;
    std::thread::scope(|sc| {
        let h = std::thread::Builder::new()
            .stack_size(16 << 20)
            .spawn_scoped(sc, || {
                let mut ex = Exec::new(None);
                ex.replay = true;
                ex.forced = v.to_vec();
                ex.fresh_from = fresh;
                let r = run_one(&mut ex, body);
                (r, ex.trace.clone())
            })
            .unwrap();
        out = Some(h.join().unwrap_or_else(|_| die("replay thread panicked")));
    });
    out.unwrap()
}

type WorkerOut = (Exec, u64, u64, bool, Vec<Vec<u32>>, Option<(Vec<u32>, usize, String)>);
fn worker(
    sh: &Shared,
    body: &(impl Fn() -> Res + Sync),
    slot: Option<&'static Slot>,
    label: &str,
    deadline: Instant,
    nt: usize,
) -> WorkerOut {
    let mut ex = Exec::new(slot);
    if let Some(s) = slot {
        s.set_label(label);
    }
    let (mut execs, mut red, mut complete) = (0u64, 0u64, true);
    let mut paths: Vec<Vec<u32>> = vec![];
    let mut next_sample = 1u64;
    let mut viol = None;
    'outer: loop {
        let prefix = {
            let mut q = sh.queue.lock().unwrap();
            loop {
                if q.2 {
                    break 'outer;
                }
                if let Some(p) = q.0.pop() {
                    q.1 += 1;
                    break p;
                }
                if q.1 == 0 {
                    q.2 = true;
                    sh.cv.notify_all();
                    break 'outer;
                }
                sh.hungry.fetch_add(1, Ordering::Relaxed);
                q = sh.cv.wait(q).unwrap();
                sh.hungry.fetch_sub(1, Ordering::Relaxed);
            }
        };
        let base = prefix.len();
        ex.stack.clear();
        ex.fresh_from = base;
        ex.forced = prefix;
        loop {
            let r = run_one(&mut ex, body);
            execs += 1;
            if ex.redundant {
                red += 1;
            } else if ex.pos < ex.stack.len() {
                die("nondeterministic body: made fewer choices than before");
            }
            if let Err(m) = r {
                viol = Some((ex.path.clone(), ex.fresh_from, m));
                sh.stop.store(true, Ordering::Relaxed);
                let mut q = sh.queue.lock().unwrap();
                q.2 = true;
                sh.cv.notify_all();
                break 'outer;
            }
            if execs == next_sample {
                next_sample *= 4;
                if !ex.redundant {
                    paths.push(ex.path.clone());
                }
            }
            if Instant::now() > deadline {
                complete = false;
                let mut q = sh.queue.lock().unwrap();
                q.2 = true;
                sh.cv.notify_all();
                break 'outer;
            }
            if sh.stop.load(Ordering::Relaxed) {
                break 'outer;
            }
            if !ex.advance(base) {
                break;
            }
            if nt > 1 && sh.hungry.load(Ordering::Relaxed) > 0 {
                let d = ex.donate(base);
                if !d.is_empty() {
                    let mut q = sh.queue.lock().unwrap();
                    q.0.extend(d.into_iter().rev());
                    sh.cv.notify_all();
                }
            }
        }
        let mut q = sh.queue.lock().unwrap();
        q.1 -= 1;
        if q.1 == 0 && q.0.is_empty() {
            q.2 = true;
        }
        sh.cv.notify_all();
    }
    // A stop by deadline in one worker leaves others incomplete as well.
    if Instant::now() > deadline {
        complete = false;
    }
    crate::sched::drop_stacks();
    (ex, execs, red, complete, paths, viol)
}

/// Runs `body` over its whole space on this thread, with or without reduction, and returns
/// (executions, redundant, outcomes, first failure).
pub fn explore_local(brute: bool, body: &(impl Fn() -> Res + Sync)) -> (u64, u64, HashSet<u64>, Option<String>) {
    let mut ex = Exec::new(None);
    ex.brute = brute;
    let (mut n, mut red) = (0, 0);
    loop {
        let r = run_one(&mut ex, body);
        n += 1;
        red += ex.redundant as u64;
        if let Err(m) = r {
            return (n, red, ex.outcomes, Some(m));
        }
        if !ex.advance(0) {
            return (n, red, ex.outcomes, None);
        }
    }
}

pub fn exploring() -> bool {
    with_exec(|_| ()).is_some()
}
/// Is a logical thread running?
pub fn sched_current() -> bool {
    crate::sched::current().is_some()
}
thread_local! {
    static SPLIT: Cell<usize> = const { Cell::new(8) };
}
pub fn split_bound() -> usize {
    SPLIT.with(|s| s.get())
}
pub fn set_split_bound(n: usize) {
    SPLIT.with(|s| s.set(n))
}
