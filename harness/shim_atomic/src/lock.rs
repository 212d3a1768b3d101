//! `Mutex` and `RwLock` under the explorer: trying to acquire is a scheduling point; a thread that
//! fails waits until a release and tries again; a cycle of waiting threads is reported.
use mcx::{point, wait, wake, Kind};
use std::ops::{Deref, DerefMut};
pub use std::sync::{LockResult, PoisonError, TryLockError, TryLockResult};

macro_rules! guard {
    ($g:ident, $lock:ident) => {
        pub struct $g<'a, T: ?Sized>(Option<std::sync::$g<'a, T>>, &'a std::sync::$lock<T>);
        impl<'a, T: ?Sized> $g<'a, T> {
            fn addr(&self) -> usize {
                self.1 as *const _ as *const u8 as usize
            }
        }
        impl<'a, T: ?Sized> Deref for $g<'a, T> {
            type Target = T;
            fn deref(&self) -> &T {
                self.0.as_ref().unwrap()
            }
        }
        impl<'a, T: ?Sized> Drop for $g<'a, T> {
            fn drop(&mut self) {
                // without its inner guard it waits at a condition
                if self.0.is_some() {
                    point(self.addr(), Kind::Write, !0);
                    self.0 = None;
                    wake(self.addr());
                }
            }
        }
        impl<'a, T: ?Sized + std::fmt::Debug> std::fmt::Debug for $g<'a, T> {
            fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
                (**self).fmt(f)
            }
        }
    };
}
guard!(MutexGuard, Mutex);
guard!(RwLockReadGuard, RwLock);
guard!(RwLockWriteGuard, RwLock);
impl<'a, T: ?Sized> DerefMut for MutexGuard<'a, T> {
    fn deref_mut(&mut self) -> &mut T {
        self.0.as_mut().unwrap()
    }
}
impl<'a, T: ?Sized> DerefMut for RwLockWriteGuard<'a, T> {
    fn deref_mut(&mut self) -> &mut T {
        self.0.as_mut().unwrap()
    }
}

macro_rules! lock {
    ($name:ident, $($get:ident $try_get:ident $g:ident $k:ident),*) => {
        #[derive(Default, Debug)]
        pub struct $name<T: ?Sized>(std::sync::$name<T>);
        impl<T> $name<T> {
            pub const fn new(v: T) -> Self {
                $name(std::sync::$name::new(v))
            }
            pub fn into_inner(self) -> LockResult<T> {
                self.0.into_inner()
            }
        }
        impl<T> From<T> for $name<T> {
            fn from(v: T) -> Self {
                $name::new(v)
            }
        }
        impl<T: ?Sized> $name<T> {
            fn addr(&self) -> usize {
                &self.0 as *const _ as *const u8 as usize
            }
            pub fn get_mut(&mut self) -> LockResult<&mut T> {
                self.0.get_mut()
            }
            pub fn is_poisoned(&self) -> bool {
                self.0.is_poisoned()
            }
            pub fn clear_poison(&self) {
                self.0.clear_poison()
            }
            $(
                pub fn $try_get(&self) -> TryLockResult<$g<'_, T>> {
                    point(self.addr(), Kind::$k, !0);
                    match self.0.$try_get() {
                        Ok(g) => Ok($g(Some(g), &self.0)),
                        Err(TryLockError::Poisoned(p)) => Err(TryLockError::Poisoned(PoisonError::new($g(Some(p.into_inner()), &self.0)))),
                        Err(TryLockError::WouldBlock) => Err(TryLockError::WouldBlock),
                    }
                }
                pub fn $get(&self) -> LockResult<$g<'_, T>> {
                    loop {
                        match self.$try_get() {
                            Ok(g) => return Ok(g),
                            Err(TryLockError::Poisoned(p)) => return Err(p),
                            Err(TryLockError::WouldBlock) => {
                                if !wait(self.addr()) {
                                    std::thread::yield_now();
                                }
                            }
                        }
                    }
                }
            )*
        }
    };
}
lock!(Mutex, lock try_lock MutexGuard Write);
lock!(RwLock, read try_read RwLockReadGuard Load, write try_write RwLockWriteGuard Write);

/// A notification wakes every waiter (waking without need is allowed); one nobody waits for is lost.
#[derive(Default, Debug)]
pub struct Condvar(u8);
impl Condvar {
    pub const fn new() -> Self {
        Condvar(0)
    }
    fn addr(&self) -> usize {
        self as *const _ as usize
    }
    pub fn wait<'a, T>(&self, mut g: MutexGuard<'a, T>) -> LockResult<MutexGuard<'a, T>> {
        let (m, at) = (g.1, g.addr());
        point(at, Kind::Write, !0);
        point(self.addr(), Kind::Write, !0);
        // releasing and going to sleep is one step
        g.0 = None;
        drop(g);
        wake(at);
        if !wait(self.addr()) {
            std::thread::yield_now();
        }
        loop {
            point(at, Kind::Write, !0);
            match m.try_lock() {
                Ok(g) => return Ok(MutexGuard(Some(g), m)),
                Err(TryLockError::Poisoned(p)) => return Err(PoisonError::new(MutexGuard(Some(p.into_inner()), m))),
                Err(TryLockError::WouldBlock) => {
                    if !wait(at) {
                        std::thread::yield_now();
                    }
                }
            }
        }
    }
    pub fn wait_while<'a, T>(&self, mut g: MutexGuard<'a, T>, mut f: impl FnMut(&mut T) -> bool) -> LockResult<MutexGuard<'a, T>> {
        while f(&mut *g) {
            g = self.wait(g)?;
        }
        Ok(g)
    }
    pub fn notify_one(&self) {
        point(self.addr(), Kind::Write, !0);
        wake(self.addr());
    }
    pub fn notify_all(&self) {
        self.notify_one()
    }
}
