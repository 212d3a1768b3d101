//! `std` with the atomics and locks replaced by explorer-controlled ones.
pub use std::*;
pub mod sync {
    pub use shim_atomic::lock::{Condvar, Mutex, MutexGuard, RwLock, RwLockReadGuard, RwLockWriteGuard};
    pub use std::sync::*;
    pub mod atomic {
        pub use shim_atomic::*;
    }
}
pub mod cell {
    pub use shim_atomic::cell::{Cell, Ref, RefCell, RefMut};
    pub use std::cell::*;
}
pub mod hint {
    pub use std::hint::*;
    pub fn spin_loop() {
        if !mcx::spin() {
            std::hint::spin_loop()
        }
    }
}
pub mod thread {
    pub use std::thread::*;
    pub fn yield_now() {
        if !mcx::spin() {
            std::thread::yield_now()
        }
    }
}
