//! Drop-in atomics and locks whose every shared access is a scheduling point of the explorer.
//! Memory model: sequentially consistent interleavings; `compare_exchange_weak` may fail
//! spuriously (a bounded number of times per execution).
pub mod cell;
pub mod lock;
pub use std::sync::atomic::{compiler_fence, Ordering};
use mcx::{point, wrote, Kind};

/// A fence orders nothing in a sequentially consistent interleaving.
pub fn fence(_: Ordering) {}

macro_rules! common {
    ($name:ident, $std:ty, $t:ty $(, $g:ident)?) => {
        impl$(<$g>)? $name$(<$g>)? {
            #[inline(always)]
            pub const fn new(v: $t) -> Self {
                $name(<$std>::new(v))
            }
            #[inline(always)]
            fn at(&self, k: Kind) {
                point(self as *const _ as *const u8 as usize, k, !0)
            }
            pub fn get_mut(&mut self) -> &mut $t {
                self.0.get_mut()
            }
            pub fn into_inner(self) -> $t {
                self.0.into_inner()
            }
            pub fn as_ptr(&self) -> *mut $t {
                self.0.as_ptr()
            }
            pub fn load(&self, _: Ordering) -> $t {
                self.at(Kind::Load);
                self.0.load(Ordering::SeqCst)
            }
            pub fn store(&self, v: $t, _: Ordering) {
                self.at(Kind::Write);
                wrote();
                self.0.store(v, Ordering::SeqCst)
            }
            pub fn swap(&self, v: $t, _: Ordering) -> $t {
                self.at(Kind::Write);
                wrote();
                self.0.swap(v, Ordering::SeqCst)
            }
            pub fn compare_exchange(&self, a: $t, b: $t, _: Ordering, _: Ordering) -> Result<$t, $t> {
                self.at(Kind::Write);
                let r = self.0.compare_exchange(a, b, Ordering::SeqCst, Ordering::SeqCst);
                if r.is_ok() {
                    wrote();
                }
                r
            }
            pub fn compare_exchange_weak(&self, a: $t, b: $t, s: Ordering, f: Ordering) -> Result<$t, $t> {
                self.at(Kind::Write);
                if mcx::sched_current() && self.0.load(Ordering::SeqCst) == a && mcx::spurious() {
                    return Err(a);
                }
                let _ = (s, f);
                let r = self.0.compare_exchange(a, b, Ordering::SeqCst, Ordering::SeqCst);
                if r.is_ok() {
                    wrote();
                }
                r
            }
            #[deprecated]
            pub fn compare_and_swap(&self, a: $t, b: $t, o: Ordering) -> $t {
                match self.compare_exchange(a, b, o, Ordering::SeqCst) {
                    Ok(x) | Err(x) => x,
                }
            }
            pub fn fetch_update<F: FnMut($t) -> Option<$t>>(&self, s: Ordering, l: Ordering, mut f: F) -> Result<$t, $t> {
                let mut prev = self.load(l);
                while let Some(next) = f(prev) {
                    match self.compare_exchange_weak(prev, next, s, l) {
                        Ok(x) => return Ok(x),
                        Err(n) => prev = n,
                    }
                }
                Err(prev)
            }
            pub fn try_update(&self, s: Ordering, l: Ordering, f: impl FnMut($t) -> Option<$t>) -> Result<$t, $t> {
                self.fetch_update(s, l, f)
            }
            pub fn update(&self, s: Ordering, l: Ordering, mut f: impl FnMut($t) -> $t) -> $t {
                self.fetch_update(s, l, |x| Some(f(x))).unwrap()
            }
        }
        impl$(<$g>)? std::fmt::Debug for $name$(<$g>)? {
            fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
                std::fmt::Debug::fmt(&self.0, f)
            }
        }
        impl$(<$g>)? From<$t> for $name$(<$g>)? {
            fn from(v: $t) -> Self { $name::new(v) }
        }
    };
}
macro_rules! rmw {
    ($name:ident, $t:ty, $($f:ident)*) => {
        impl $name { $(
            pub fn $f(&self, v: $t, _: Ordering) -> $t {
                self.at(Kind::Write);
                wrote();
                self.0.$f(v, Ordering::SeqCst)
            }
        )* }
    };
}
macro_rules! int {
    ($($name:ident, $std:ty, $t:ty;)*) => { $(
        #[derive(Default)]
        #[repr(transparent)]
        pub struct $name($std);
        common!($name, $std, $t);
        rmw!($name, $t, fetch_add fetch_sub fetch_and fetch_nand fetch_or fetch_xor fetch_max fetch_min);
        impl $name {
            /// `fetch_or` whose caller looks at the bits of `v` only.
            pub fn or_bits(&self, v: $t, _: Ordering) -> $t {
                point(self as *const _ as *const u8 as usize, Kind::Or, v as u64);
                wrote();
                self.0.fetch_or(v, Ordering::SeqCst)
            }
            /// `fetch_or` whose result is not used.
            pub fn or_blind(&self, v: $t, _: Ordering) {
                point(self as *const _ as *const u8 as usize, Kind::OrBlind, v as u64);
                wrote();
                self.0.fetch_or(v, Ordering::SeqCst);
            }
            /// `load` whose caller looks at the bits of `m` only.
            pub fn load_bits(&self, m: $t, _: Ordering) -> $t {
                point(self as *const _ as *const u8 as usize, Kind::Load, m as u64);
                self.0.load(Ordering::SeqCst)
            }
        }
    )* };
}
int! {
    AtomicU8, std::sync::atomic::AtomicU8, u8;
    AtomicU16, std::sync::atomic::AtomicU16, u16;
    AtomicU32, std::sync::atomic::AtomicU32, u32;
    AtomicU64, std::sync::atomic::AtomicU64, u64;
    AtomicUsize, std::sync::atomic::AtomicUsize, usize;
    AtomicI8, std::sync::atomic::AtomicI8, i8;
    AtomicI16, std::sync::atomic::AtomicI16, i16;
    AtomicI32, std::sync::atomic::AtomicI32, i32;
    AtomicI64, std::sync::atomic::AtomicI64, i64;
    AtomicIsize, std::sync::atomic::AtomicIsize, isize;
}

#[derive(Default)]
#[repr(transparent)]
pub struct AtomicBool(std::sync::atomic::AtomicBool);
common!(AtomicBool, std::sync::atomic::AtomicBool, bool);
rmw!(AtomicBool, bool, fetch_and fetch_nand fetch_or fetch_xor);
impl AtomicBool {
    pub fn fetch_not(&self, o: Ordering) -> bool {
        self.fetch_xor(true, o)
    }
}

#[repr(transparent)]
pub struct AtomicPtr<T>(std::sync::atomic::AtomicPtr<T>);
common!(AtomicPtr, std::sync::atomic::AtomicPtr<T>, *mut T, T);
impl<T> Default for AtomicPtr<T> {
    fn default() -> Self {
        AtomicPtr::new(std::ptr::null_mut())
    }
}
