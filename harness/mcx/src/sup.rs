//! Process supervision: the exploration runs in a child process so that a crash or hang of the
//! code under test becomes a reproducible verdict instead of a lost run.
use std::cell::UnsafeCell;
use std::io::Write;
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::process::{exit, Command, Stdio};
use std::sync::atomic::{AtomicU32, AtomicU64, Ordering};
use std::time::{Duration, Instant};

use crate::engine::{set_quiet_hook, Ctx, SpaceResult, Violation};
use crate::report::{arr, esc};

pub struct Suite {
    pub prop: &'static str,
    pub name: &'static str,
    pub run: fn(&mut Ctx),
}

const SLOT_CHOICES: usize = 60_000;
#[repr(C)]
pub struct Slot {
    beat: AtomicU64,
    active: AtomicU32,
    len: AtomicU32,
    fresh: AtomicU32,
    label_len: AtomicU32,
    label: UnsafeCell<[u8; 256]>,
    choices: UnsafeCell<[u32; SLOT_CHOICES]>,
}
unsafe impl Sync for Slot {}
impl Slot {
    pub(crate) fn begin(&self, fresh: u32) {
        self.fresh.store(fresh, Ordering::Relaxed);
        self.len.store(0, Ordering::Relaxed);
        self.active.store(1, Ordering::Relaxed);
        self.beat.fetch_add(1, Ordering::Relaxed);
    }
    pub(crate) fn end(&self) {
        self.active.store(0, Ordering::Relaxed);
    }
    #[inline]
    pub(crate) fn push(&self, v: u32) {
        let n = self.len.load(Ordering::Relaxed) as usize;
        if n < SLOT_CHOICES {
            unsafe { (*self.choices.get())[n] = v };
            self.len.store(n as u32 + 1, Ordering::Relaxed);
        }
    }
    pub(crate) fn set_label(&self, l: &str) {
        let b = l.as_bytes();
        let n = b.len().min(256);
        unsafe { (&mut *self.label.get())[..n].copy_from_slice(&b[..n]) };
        self.label_len.store(n as u32, Ordering::Relaxed);
    }
    fn read(&self) -> (String, Vec<u32>, usize) {
        let n = self.label_len.load(Ordering::Relaxed) as usize;
        let l = unsafe { String::from_utf8_lossy(&(&*self.label.get())[..n]).into_owned() };
        let k = (self.len.load(Ordering::Relaxed) as usize).min(SLOT_CHOICES);
        (l, unsafe { (&*self.choices.get())[..k].to_vec() }, self.fresh.load(Ordering::Relaxed) as usize)
    }
}
const NSLOTS: usize = 64;

fn map_slots(path: &str, create: bool) -> &'static [Slot] {
    use std::os::fd::AsRawFd;
    let f = std::fs::OpenOptions::new()
        .read(true)
        .write(true)
        .create(create)
        .truncate(create)
        .open(path)
        .expect("slot file");
    let size = NSLOTS * std::mem::size_of::<Slot>();
    if create {
        f.set_len(size as u64).unwrap();
    }
    let p = unsafe {
        libc::mmap(
            std::ptr::null_mut(),
            size,
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED,
            f.as_raw_fd(),
            0,
        )
    };
    assert!(p != libc::MAP_FAILED, "mmap");
    unsafe { std::slice::from_raw_parts(p as *const Slot, NSLOTS) }
}

struct Args {
    prop: String,
    thorough: bool,
    out: String,
    deadline: f64,
    threads: usize,
    only: Option<String>,
    verbose: bool,
    file: String,
    seed: u64,
}
fn parse(mut it: std::vec::IntoIter<String>) -> Args {
    let mut a = Args {
        prop: String::new(),
        thorough: false,
        out: String::new(),
        deadline: 3600.0,
        threads: std::thread::available_parallelism().map_or(4, |n| n.get()).min(16),
        only: None,
        verbose: false,
        file: String::new(),
        seed: 1,
    };
    while let Some(k) = it.next() {
        match k.as_str() {
            "--prop" => a.prop = it.next().unwrap(),
            "--thorough" => a.thorough = true,
            "--out" => a.out = it.next().unwrap(),
            "--deadline" => a.deadline = it.next().unwrap().parse().unwrap(),
            "--threads" => a.threads = it.next().unwrap().parse().unwrap(),
            "--only" => a.only = it.next(),
            "--seed" => a.seed = it.next().unwrap().parse().unwrap(),
            "-v" => a.verbose = true,
            f => a.file = f.into(),
        }
    }
    a
}
fn ctx(a: &Args, slots: Option<&'static [Slot]>) -> Ctx {
    Ctx {
        thorough: a.thorough,
        seed: a.seed,
        deadline: Instant::now() + Duration::from_secs_f64(a.deadline),
        results: vec![],
        violation: None,
        known: vec![],
        target: None,
        target_fresh: 0,
        replayed: None,
        slots,
        threads: a.threads,
        prefix: String::new(),
        verbose: a.verbose,
    }
}

/// usage: BIN run --prop ID [--thorough] [--deadline S] --out FILE | BIN replay FILE
pub fn main_entry(suites: &[Suite]) -> ! {
    let mut args = std::env::args().collect::<Vec<_>>().into_iter();
    args.next();
    let cmd = args.next().unwrap_or_default();
    let a = parse(args.collect::<Vec<_>>().into_iter());
    match cmd.as_str() {
        "run" => supervise(&a),
        "child" => child(suites, &a),
        "replay" => replay(suites, &a),
        "list" => {
            for s in suites {
                println!("{} {}", s.prop, s.name);
            }
            exit(0)
        }
        _ => {
            eprintln!("usage: run|replay|list");
            exit(2)
        }
    }
}

fn limit_memory() {
    let gb: u64 = std::env::var("MCX_MEM_GB").ok().and_then(|s| s.parse().ok()).unwrap_or(20);
    let l = libc::rlimit { rlim_cur: gb << 30, rlim_max: gb << 30 };
    unsafe {
        libc::setrlimit(libc::RLIMIT_AS, &l);
        let c = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &c);
    }
}

fn child(suites: &[Suite], a: &Args) -> ! {
    limit_memory();
    set_quiet_hook();
    let slots = map_slots(&format!("{}.slots", a.out), false);
    let mut c = ctx(a, Some(slots));
    let mut any = false;
    for s in suites.iter().filter(|s| s.prop == a.prop) {
        if a.only.as_ref().map_or(false, |o| o != s.name) {
            continue;
        }
        any = true;
        c.prefix = format!("{}/{}", s.prop, s.name);
        (s.run)(&mut c);
    }
    if !any {
        eprintln!("no suite for {}", a.prop);
        exit(2);
    }
    let spaces = arr(&c.results, space_json);
    let v = c.violation.as_ref().map_or("null".into(), viol_json);
    std::fs::write(&a.out, format!("{{\"spaces\":{spaces},\"violation\":{v}}}\n")).unwrap();
    exit(0)
}
fn space_json(r: &SpaceResult) -> String {
    format!(
        "{{\"label\":{},\"rule\":{},\"executions\":{},\"redundant\":{},\"states_visited\":{},\"distinct_states\":{},\"transitions\":{},\"outcomes\":{},\"max_depth\":{},\"complete\":{},\"fp_capped\":{},\"wall_s\":{:.3},\"samples\":{}}}",
        esc(&r.label), esc(&r.rule), r.executions, r.redundant, r.states, r.distinct, r.transitions,
        r.outcomes, r.max_depth, r.complete, r.fp_capped, r.wall_s, arr(&r.samples, |s| esc(s))
    )
}
fn viol_json(v: &Violation) -> String {
    format!(
        "{{\"label\":{},\"fresh\":{},\"choices\":{},\"msg\":{},\"trace\":{}}}",
        esc(&v.label),
        v.fresh,
        arr(&v.choices, |c| c.to_string()),
        esc(&v.msg),
        arr(&v.trace, |s| esc(s))
    )
}

/// Replay file: line 1 label, line 2 choices separated by blanks; further lines are commentary.
fn replay(suites: &[Suite], a: &Args) -> ! {
    limit_memory();
    set_quiet_hook();
    let text = std::fs::read_to_string(&a.file).expect("replay file");
    let mut l = text.lines();
    let label = l.next().unwrap_or("").trim().to_string();
    let line = l.next().unwrap_or("");
    let (line, fresh) = line.split_once('@').unwrap_or((line, "0"));
    let fresh: usize = fresh.trim().parse().unwrap();
    let choices: Vec<u32> = line.split_whitespace().map(|x| x.parse().unwrap()).collect();
    let mut parts = label.split('/');
    let (prop, name) = (parts.next().unwrap_or(""), parts.next().unwrap_or(""));
    // The space may exist in one tier only.
    for thorough in [false, true] {
        let mut c = ctx(a, None);
        c.thorough = thorough;
        c.target_fresh = fresh;
        c.target = Some((label.clone(), choices.clone()));
        for s in suites.iter().filter(|s| s.prop == prop && s.name == name) {
            c.prefix = format!("{}/{}", s.prop, s.name);
            (s.run)(&mut c);
        }
        if let Some((r, trace)) = c.replayed {
            let ok = r.is_ok();
            let msg = r.err().unwrap_or_default();
            if !a.out.is_empty() {
                let mut f = std::fs::File::create(&a.out).unwrap();
                let v = Violation { label, choices, fresh, msg: msg.clone(), trace: trace.clone() };
                writeln!(f, "{{\"ok\":{ok},\"violation\":{}}}", viol_json(&v)).unwrap();
            }
            for t in &trace {
                println!("  {t}");
            }
            println!("{}", if ok { "replay: property holds on this execution".into() } else { format!("replay: VIOLATED: {msg}") });
            exit(if ok { 0 } else { 1 });
        }
    }
    eprintln!("no space {label}");
    exit(2)
}

fn crash_replay(a: &Args, label: &str, choices: &[u32], fresh: usize) -> Option<String> {
    let file = format!("{}.crash", a.out);
    std::fs::write(
        &file,
        format!("{label}\n{} @{fresh}\n", choices.iter().map(|c| c.to_string()).collect::<Vec<_>>().join(" ")),
    )
    .unwrap();
    let mut ch = Command::new(std::env::current_exe().unwrap())
        .args(["replay", &file])
        .env("MCX_ONCE", "1")
        .stdout(Stdio::null())
        .stderr(Stdio::piped())
        .spawn()
        .unwrap();
    let start = Instant::now();
    let r = loop {
        if let Some(s) = ch.try_wait().unwrap() {
            break match s.signal() {
                Some(sig) if sig != libc::SIGKILL && sig != libc::SIGTERM => {
                    Some(format!("the process is killed by signal {sig} (memory corruption or abort)"))
                }
                _ => None,
            };
        }
        if start.elapsed() > Duration::from_secs(100) {
            let _ = ch.kill();
            let _ = ch.wait();
            break Some("an operation does not terminate".into());
        }
        std::thread::sleep(Duration::from_millis(20));
    };
    let _ = std::fs::remove_file(&file);
    r
}

fn supervise(a: &Args) -> ! {
    let slot_file = format!("{}.slots", a.out);
    let slots = map_slots(&slot_file, true);
    let _ = std::fs::remove_file(&a.out);
    let mut cmd = Command::new(std::env::current_exe().unwrap());
    cmd.arg("child");
    cmd.args(std::env::args().skip(2));
    unsafe {
        cmd.pre_exec(|| {
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            Ok(())
        });
    }
    let mut ch = cmd.spawn().expect("child");
    let mut last: Vec<(u64, u32, Instant)> =
        slots.iter().map(|_| (0, 0, Instant::now())).collect();
    let mut suspects: Vec<usize>;
    let why: String;
    loop {
        if let Some(s) = ch.try_wait().unwrap() {
            if s.success() {
                let _ = std::fs::remove_file(&slot_file);
                exit(0);
            }
            why = format!("{s}");
            suspects = (0..NSLOTS).filter(|&i| slots[i].active.load(Ordering::Relaxed) == 1).collect();
            if s.signal().is_none() {
                eprintln!("exploration failed: {why}");
                let _ = std::fs::remove_file(&slot_file);
                exit(2);
            }
            break;
        }
        for (i, s) in slots.iter().enumerate() {
            let now = (s.beat.load(Ordering::Relaxed), s.len.load(Ordering::Relaxed));
            if s.active.load(Ordering::Relaxed) == 0 || (last[i].0, last[i].1) != now {
                last[i] = (now.0, now.1, Instant::now());
            }
        }
        suspects = (0..NSLOTS).filter(|&i| last[i].2.elapsed() > Duration::from_secs(150)).collect();
        if !suspects.is_empty() {
            why = "hang".into();
            let _ = ch.kill();
            let _ = ch.wait();
            break;
        }
        std::thread::sleep(Duration::from_millis(5));
    }
    let mut errs = vec![];
    let mut cands: Vec<(String, Vec<u32>, usize)> = suspects.iter().map(|&i| slots[i].read()).collect();
    cands.sort_by(|x, y| (x.1.len(), &x.1).cmp(&(y.1.len(), &y.1)));
    for (label, choices, fresh) in cands {
        match crash_replay(a, &label, &choices, fresh) {
            Some(w) if crash_replay(a, &label, &choices, fresh).is_some() => {
                let v = Violation { label, choices, fresh, msg: w, trace: vec!["(crash: see the choices)".into()] };
                std::fs::write(&a.out, format!("{{\"spaces\":[],\"violation\":{}}}\n", viol_json(&v))).unwrap();
                let _ = std::fs::remove_file(&slot_file);
                exit(0);
            }
            x => errs.push(format!("{label} {choices:?}: {x:?}")),
        }
    }
    eprintln!("exploration child ended with {why}; not reproduced by {errs:?}");
    let _ = std::fs::remove_file(&slot_file);
    exit(2)
}
