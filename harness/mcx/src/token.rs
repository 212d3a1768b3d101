//! Drop-tracked component payload.  Every token has a unique id in a per-OS-thread registry, which
//! records drops; reading or dropping memory that is not a live token is an error.
use std::cell::{Cell, RefCell};

pub const MAGIC: u64 = 0x70CE_1234_5678_9ABC;

#[derive(Default)]
struct Reg {
    // per id: value, drop count
    live: Vec<(i64, u32)>,
    errors: Vec<String>,
    n_live: usize,
}
thread_local! {
    static REG: RefCell<Reg> = RefCell::new(Reg::default());
    /// When Some(k): the k-th callback from now panics.
    static FUSE: Cell<Option<u32>> = const { Cell::new(None) };
    static FIRED: Cell<bool> = const { Cell::new(false) };
    static CALLBACKS: Cell<u32> = const { Cell::new(0) };
}

#[derive(Debug, PartialEq, Eq)]
pub struct Token {
    magic: u64,
    id: u32,
    pub val: i64,
}

pub fn reset() {
    REG.with(|r| {
        let mut r = r.borrow_mut();
        r.live.clear();
        r.errors.clear();
        r.n_live = 0;
    });
    FUSE.with(|f| f.set(None));
    FIRED.with(|f| f.set(false));
    CALLBACKS.with(|f| f.set(0));
}
/// First registry error (double drop, garbage drop, garbage read), if any.
pub fn error() -> Option<String> {
    REG.with(|r| r.borrow().errors.first().cloned())
}
/// Records an error found by a monitor.
pub fn complain(m: String) {
    REG.with(|r| r.borrow_mut().errors.push(m));
}
pub fn live() -> usize {
    REG.with(|r| r.borrow().n_live)
}
pub fn live_vals() -> Vec<i64> {
    REG.with(|r| r.borrow().live.iter().filter(|x| x.1 == 0).map(|x| x.0).collect())
}
pub fn drops(id: u32) -> u32 {
    REG.with(|r| r.borrow().live[id as usize].1)
}
pub fn created() -> usize {
    REG.with(|r| r.borrow().live.len())
}
/// The callback number `k` (0-based, counted from now) panics; destructors of tokens and calls to
/// `callback()` count.
pub fn set_fuse(k: Option<u32>) {
    FUSE.with(|f| f.set(k));
    FIRED.with(|f| f.set(false));
    CALLBACKS.with(|c| c.set(0));
}
pub fn fired() -> bool {
    FIRED.with(|f| f.get())
}
pub fn callbacks() -> u32 {
    CALLBACKS.with(|f| f.get())
}
/// A user callback: panics if the fuse says so.
pub fn callback(what: &str) {
    CALLBACKS.with(|c| c.set(c.get() + 1));
    let boom = FUSE.with(|f| match f.get() {
        Some(0) => {
            f.set(None);
            true
        }
        Some(k) => {
            f.set(Some(k - 1));
            false
        }
        None => false,
    });
    if boom {
        FIRED.with(|f| f.set(true));
        panic!("injected panic in {what}");
    }
}

impl Token {
    pub fn new(val: i64) -> Token {
        let id = REG.with(|r| {
            let mut r = r.borrow_mut();
            r.live.push((val, 0));
            r.n_live += 1;
            r.live.len() as u32 - 1
        });
        Token { magic: MAGIC, id, val }
    }
    pub fn id(&self) -> u32 {
        self.id
    }
    /// Reads the value, recording an error if this is not a live token.
    pub fn read(&self) -> i64 {
        let ok = self.magic == MAGIC
            && REG.with(|r| r.borrow().live.get(self.id as usize).map_or(false, |x| x.1 == 0));
        if !ok {
            REG.with(|r| {
                r.borrow_mut().errors.push(format!(
                    "a reference to something that is not a live value was handed out (id {:#x})",
                    self.id
                ))
            });
            return i64::MIN;
        }
        self.val
    }
    pub fn set(&mut self, v: i64) {
        if self.read() != i64::MIN {
            self.val = v;
            let id = self.id;
            REG.with(|r| r.borrow_mut().live[id as usize].0 = v);
        }
    }
}
impl Clone for Token {
    fn clone(&self) -> Self {
        callback("clone");
        Token::new(self.read())
    }
}
impl Drop for Token {
    fn drop(&mut self) {
        let magic = self.magic;
        let id = self.id;
        REG.with(|r| {
            let mut r = r.borrow_mut();
            let r = &mut *r;
            if magic != MAGIC {
                r.errors.push(format!("a slot that was never initialised (or already freed) was dropped: magic {magic:#x}"));
            } else if let Some(x) = r.live.get_mut(id as usize) {
                x.1 += 1;
                if x.1 == 1 {
                    r.n_live -= 1;
                } else {
                    r.errors.push(format!("value {} dropped twice", x.0));
                }
            } else {
                r.errors.push(format!("unknown value dropped (id {id:#x})"));
            }
        });
        callback("drop");
    }
}
