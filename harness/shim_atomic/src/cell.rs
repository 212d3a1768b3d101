//! `Cell` and `RefCell` whose every access through a shared reference is a scheduling point: a type
//! which claims to be `Sync` may hold them.
pub use std::cell::{BorrowError, BorrowMutError};
use mcx::{point, wrote, Kind};
use std::fmt;
use std::ops::{Deref, DerefMut};

#[derive(Default)]
#[repr(transparent)]
pub struct Cell<T>(std::cell::Cell<T>);
impl<T> Cell<T> {
    pub const fn new(v: T) -> Self {
        Cell(std::cell::Cell::new(v))
    }
    fn at(&self, k: Kind) {
        if std::mem::size_of::<T>() > 0 {
            point(self as *const _ as *const u8 as usize, k, !0);
            if k == Kind::Write {
                wrote();
            }
        }
    }
    pub fn set(&self, v: T) {
        drop(self.replace(v))
    }
    pub fn replace(&self, v: T) -> T {
        self.at(Kind::Write);
        self.0.replace(v)
    }
    pub fn swap(&self, o: &Self) {
        self.at(Kind::Write);
        o.at(Kind::Write);
        self.0.swap(&o.0)
    }
    pub fn take(&self) -> T
    where
        T: Default,
    {
        self.replace(T::default())
    }
    pub fn get(&self) -> T
    where
        T: Copy,
    {
        self.at(Kind::Load);
        self.0.get()
    }
    pub fn update(&self, f: impl FnOnce(T) -> T)
    where
        T: Copy,
    {
        self.set(f(self.get()))
    }
    pub const fn as_ptr(&self) -> *mut T {
        self.0.as_ptr()
    }
    pub fn get_mut(&mut self) -> &mut T {
        self.0.get_mut()
    }
    pub fn into_inner(self) -> T {
        self.0.into_inner()
    }
}
impl<T: Copy> Clone for Cell<T> {
    fn clone(&self) -> Self {
        Cell::new(self.get())
    }
}
impl<T: Copy + PartialEq> PartialEq for Cell<T> {
    fn eq(&self, o: &Self) -> bool {
        self.get() == o.get()
    }
}
impl<T: Copy + Eq> Eq for Cell<T> {}
impl<T: Copy + fmt::Debug> fmt::Debug for Cell<T> {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        self.0.fmt(f)
    }
}
impl<T> From<T> for Cell<T> {
    fn from(v: T) -> Self {
        Cell::new(v)
    }
}

#[derive(Default)]
pub struct RefCell<T: ?Sized>(std::cell::RefCell<T>);
impl<T> RefCell<T> {
    pub const fn new(v: T) -> Self {
        RefCell(std::cell::RefCell::new(v))
    }
    pub fn into_inner(self) -> T {
        self.0.into_inner()
    }
    pub fn replace(&self, v: T) -> T {
        std::mem::replace(&mut *self.borrow_mut(), v)
    }
    pub fn take(&self) -> T
    where
        T: Default,
    {
        self.replace(T::default())
    }
}
impl<T: ?Sized> RefCell<T> {
    fn at(&self) -> usize {
        let a = self as *const _ as *const u8 as usize;
        point(a, Kind::Write, !0);
        wrote();
        a
    }
    pub fn borrow(&self) -> Ref<'_, T> {
        let a = self.at();
        Ref(Some(self.0.borrow()), a)
    }
    pub fn borrow_mut(&self) -> RefMut<'_, T> {
        let a = self.at();
        RefMut(Some(self.0.borrow_mut()), a)
    }
    pub fn try_borrow(&self) -> Result<Ref<'_, T>, BorrowError> {
        let a = self.at();
        Ok(Ref(Some(self.0.try_borrow()?), a))
    }
    pub fn try_borrow_mut(&self) -> Result<RefMut<'_, T>, BorrowMutError> {
        let a = self.at();
        Ok(RefMut(Some(self.0.try_borrow_mut()?), a))
    }
    pub fn as_ptr(&self) -> *mut T {
        self.0.as_ptr()
    }
    pub fn get_mut(&mut self) -> &mut T {
        self.0.get_mut()
    }
}
impl<T: fmt::Debug + ?Sized> fmt::Debug for RefCell<T> {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        self.0.fmt(f)
    }
}
impl<T: Clone> Clone for RefCell<T> {
    fn clone(&self) -> Self {
        RefCell::new(self.borrow().clone())
    }
}
impl<T> From<T> for RefCell<T> {
    fn from(v: T) -> Self {
        RefCell::new(v)
    }
}
pub struct Ref<'b, T: ?Sized>(Option<std::cell::Ref<'b, T>>, usize);
pub struct RefMut<'b, T: ?Sized>(Option<std::cell::RefMut<'b, T>>, usize);
impl<'b, T: ?Sized> Ref<'b, T> {
    pub fn map<U: ?Sized>(mut r: Self, f: impl FnOnce(&T) -> &U) -> Ref<'b, U> {
        Ref(r.0.take().map(|r| std::cell::Ref::map(r, f)), r.1)
    }
}
impl<'b, T: ?Sized> RefMut<'b, T> {
    pub fn map<U: ?Sized>(mut r: Self, f: impl FnOnce(&mut T) -> &mut U) -> RefMut<'b, U> {
        RefMut(r.0.take().map(|r| std::cell::RefMut::map(r, f)), r.1)
    }
}
impl<'b, T: ?Sized> Deref for Ref<'b, T> {
    type Target = T;
    fn deref(&self) -> &T {
        self.0.as_ref().unwrap()
    }
}
impl<'b, T: ?Sized> Deref for RefMut<'b, T> {
    type Target = T;
    fn deref(&self) -> &T {
        self.0.as_ref().unwrap()
    }
}
impl<'b, T: ?Sized> DerefMut for RefMut<'b, T> {
    fn deref_mut(&mut self) -> &mut T {
        self.0.as_mut().unwrap()
    }
}
impl<'b, T: ?Sized> Drop for Ref<'b, T> {
    fn drop(&mut self) {
        if self.0.is_some() && !std::thread::panicking() {
            point(self.1, Kind::Write, !0);
            wrote();
        }
    }
}
impl<'b, T: ?Sized> Drop for RefMut<'b, T> {
    fn drop(&mut self) {
        if self.0.is_some() && !std::thread::panicking() {
            point(self.1, Kind::Write, !0);
            wrote();
        }
    }
}
