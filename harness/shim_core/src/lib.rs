//! `core` with the atomics replaced by explorer-controlled ones.
#![no_std]
pub use core::*;
pub mod sync {
    pub use core::sync::*;
    pub mod atomic {
        pub use shim_atomic::*;
    }
}
pub mod cell {
    pub use shim_atomic::cell::{Cell, Ref, RefCell, RefMut};
    pub use core::cell::*;
}
pub mod hint {
    pub use core::hint::*;
    pub fn spin_loop() {
        if !mcx::spin() {
            core::hint::spin_loop()
        }
    }
}
