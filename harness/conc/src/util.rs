use mcx::*;
use shim_atomic::{AtomicU64, Ordering};
use goggles::Entity;
use std::cell::RefCell;

/// `&T` shared between logical threads that all live on one OS thread.
pub struct Share<T>(pub T);
unsafe impl<T> Sync for Share<T> {}
unsafe impl<T> Send for Share<T> {}

/// A modelled channel slot: publishing and receiving an entity are scheduling points.
pub struct Slot {
    flag: AtomicU64,
    v: RefCell<Option<Entity>>,
}
impl Slot {
    pub fn new() -> Slot {
        Slot { flag: AtomicU64::new(0), v: RefCell::new(None) }
    }
    pub fn put(&self, e: Entity) {
        *self.v.borrow_mut() = Some(e);
        self.flag.store(1, Ordering::SeqCst);
    }
    pub fn get(&self) -> Option<Entity> {
        if self.flag.load(Ordering::SeqCst) == 1 {
            *self.v.borrow()
        } else {
            None
        }
    }
}
/// Runs the threads; a panic escaping one of them is a violation.
pub fn threads<'a>(fs: Vec<Box<dyn FnOnce() + 'a>>) -> Res {
    for (i, r) in run_threads(fs).into_iter().enumerate() {
        if let Err(e) = r {
            return Err(format!("thread {i} panicked: {}", panic_msg(&e)));
        }
    }
    Ok(())
}
pub fn es(e: Entity) -> String {
    format!("{}v{}", e.index(), e.generation())
}
