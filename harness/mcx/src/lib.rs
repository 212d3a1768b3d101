//! Bounded-exhaustive exploration engine.
//!
//! A *space* is a closure (`body`) that builds a fresh system, makes nondeterministic choices with
//! `choose(n)` and/or runs logical threads with `run_threads`, and returns `Err` on a property
//! violation.  `explore` re-executes the body until every choice vector (and, for threads, one
//! representative of every Mazurkiewicz trace of shared accesses, by DPOR with sleep sets) has been
//! executed.
pub mod alloc;
pub mod engine;
pub mod report;
pub mod sched;
pub mod sup;
pub mod token;

pub use engine::*;
pub use sched::{point, run_threads, spawn_join, spin, wait, wake, wrote, Access, Kind, ModelCell};
pub use sup::{main_entry, Suite};

pub type Res = Result<(), String>;

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($t:tt)*) => { if !$c { return Err(format!($($t)*)); } };
}
#[macro_export]
macro_rules! ensure_eq {
    ($a:expr, $b:expr, $($t:tt)*) => {{
        let (a, b) = (&$a, &$b);
        if a != b { return Err(format!("{}: got {:?}, expected {:?}", format!($($t)*), a, b)); }
    }};
}

/// Runs `f`, catching a panic and returning its message.
pub fn catch<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(e) => Err(panic_msg(&e)),
    }
}
/// Drops `v` while the stack is unwinding from a panic elsewhere in the program.
pub fn drop_unwinding<T>(v: T) {
    let r = catch(move || {
        let _v = v;
        std::panic::resume_unwind(Box::new("an unrelated panic"))
    });
    assert!(r.map(|()| ()).is_err());
}
pub fn panic_msg(e: &Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = e.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else {
        "<panic>".into()
    }
}
/// FNV-style hashing for state fingerprints (deterministic across runs).
pub fn fp<T: std::hash::Hash>(t: &T) -> u64 {
    struct F(u64);
    impl std::hash::Hasher for F {
        fn finish(&self) -> u64 {
            let mut x = self.0;
            x ^= x >> 33;
            x = x.wrapping_mul(0xff51afd7ed558ccd);
            x ^ (x >> 29)
        }
        fn write(&mut self, b: &[u8]) {
            for &c in b {
                self.0 = (self.0 ^ c as u64).wrapping_mul(0x100000001b3);
            }
        }
    }
    let mut h = F(0xcbf29ce484222325);
    t.hash(&mut h);
    std::hash::Hasher::finish(&h)
}

/// Runs `f` in a forked copy of the process (so that it may destroy state that is expensive to
/// build) and returns its verdict; a crash or hang there is a failure too.
pub fn in_fork(f: impl FnOnce() -> Res) -> Res {
    let mut fds = [0i32; 2];
    unsafe {
        if libc::pipe(fds.as_mut_ptr()) != 0 {
            engine::die("pipe");
        }
        let pid = libc::fork();
        if pid < 0 {
            engine::die("fork");
        }
        if pid == 0 {
            libc::close(fds[0]);
            libc::alarm(30);
            let r = match catch(f) {
                Ok(r) => r,
                Err(m) => Err(format!("unexpected panic: {m}")),
            };
            let m = r.err().unwrap_or_default();
            let m = &m.as_bytes()[..m.len().min(4000)];
            libc::write(fds[1], m.as_ptr() as *const _, m.len());
            libc::_exit(if m.is_empty() { 0 } else { 3 });
        }
        libc::close(fds[1]);
        let mut buf = vec![0u8; 4096];
        let mut n = 0;
        loop {
            let k = libc::read(fds[0], buf[n..].as_mut_ptr() as *mut _, 4096 - n);
            if k <= 0 {
                break;
            }
            n += k as usize;
        }
        libc::close(fds[0]);
        let mut st = 0;
        libc::waitpid(pid, &mut st, 0);
        if st == 0 {
            return Ok(());
        }
        if libc::WIFSIGNALED(st) {
            return match libc::WTERMSIG(st) {
                libc::SIGALRM => Err("an operation does not terminate".into()),
                s => Err(format!("the process is killed by signal {s} (memory corruption or abort)")),
            };
        }
        Err(String::from_utf8_lossy(&buf[..n]).into_owned())
    }
}
