//! Model of `parking_lot`: locks of a cooperative two-actor schedule.
//! Every acquisition and release is a yield point (see symrt::yield_point).
use std::cell::{Cell, UnsafeCell};
use std::fmt;
use std::ops::{Deref, DerefMut};

pub struct RwLock<T: ?Sized> {
    /// -1 writer, n>0 readers
    st: Cell<isize>,
    v: UnsafeCell<T>,
}
unsafe impl<T: ?Sized + Send> Send for RwLock<T> {}
unsafe impl<T: ?Sized + Send + Sync> Sync for RwLock<T> {}
impl<T> std::panic::UnwindSafe for RwLock<T> {}
impl<T> std::panic::RefUnwindSafe for RwLock<T> {}

pub struct RwLockReadGuard<'a, T: ?Sized>(&'a RwLock<T>);
pub struct RwLockWriteGuard<'a, T: ?Sized>(&'a RwLock<T>);
pub struct RwLockUpgradableReadGuard<'a, T: ?Sized>(&'a RwLock<T>);

impl<T> RwLock<T> {
    pub const fn new(v: T) -> Self {
        RwLock { st: Cell::new(0), v: UnsafeCell::new(v) }
    }
    pub fn into_inner(self) -> T {
        self.v.into_inner()
    }
}
impl<T: ?Sized> RwLock<T> {
    pub fn read(&self) -> RwLockReadGuard<'_, T> {
        symrt::yield_point();
        if self.st.get() < 0 {
            symrt::blocked();
        }
        self.st.set(self.st.get() + 1);
        RwLockReadGuard(self)
    }
    pub fn write(&self) -> RwLockWriteGuard<'_, T> {
        symrt::yield_point();
        if self.st.get() != 0 {
            symrt::blocked();
        }
        self.st.set(-1);
        RwLockWriteGuard(self)
    }
    pub fn read_recursive(&self) -> RwLockReadGuard<'_, T> {
        self.read()
    }
    pub fn try_upgradable_read(&self) -> Option<RwLockUpgradableReadGuard<'_, T>> {
        let g = self.try_read()?;
        std::mem::forget(g);
        Some(RwLockUpgradableReadGuard(self))
    }
    pub fn is_locked_exclusive(&self) -> bool {
        self.st.get() < 0
    }
    pub fn data_ptr(&self) -> *mut T {
        self.v.get()
    }
    pub fn upgradable_read(&self) -> RwLockUpgradableReadGuard<'_, T> {
        symrt::yield_point();
        if self.st.get() < 0 {
            symrt::blocked();
        }
        self.st.set(self.st.get() + 1);
        RwLockUpgradableReadGuard(self)
    }
    pub fn try_read(&self) -> Option<RwLockReadGuard<'_, T>> {
        symrt::yield_point();
        if self.st.get() < 0 {
            return None;
        }
        self.st.set(self.st.get() + 1);
        Some(RwLockReadGuard(self))
    }
    pub fn try_write(&self) -> Option<RwLockWriteGuard<'_, T>> {
        symrt::yield_point();
        if self.st.get() != 0 {
            return None;
        }
        self.st.set(-1);
        Some(RwLockWriteGuard(self))
    }
    pub fn is_locked(&self) -> bool {
        self.st.get() != 0
    }
    pub fn get_mut(&mut self) -> &mut T {
        self.v.get_mut()
    }
}
pub const fn const_rwlock<T>(v: T) -> RwLock<T> {
    RwLock::new(v)
}
pub const fn const_mutex<T>(v: T) -> Mutex<T> {
    Mutex::new(v)
}
impl<T> From<T> for RwLock<T> {
    fn from(v: T) -> Self {
        RwLock::new(v)
    }
}
impl<T> From<T> for Mutex<T> {
    fn from(v: T) -> Self {
        Mutex::new(v)
    }
}
impl<T: Default> Default for RwLock<T> {
    fn default() -> Self {
        RwLock::new(T::default())
    }
}
impl<T: ?Sized> fmt::Debug for RwLock<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("RwLock")
    }
}
impl<T: ?Sized> Deref for RwLockReadGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        unsafe { &*self.0.v.get() }
    }
}
impl<T: ?Sized> Deref for RwLockUpgradableReadGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        unsafe { &*self.0.v.get() }
    }
}
impl<'a, T: ?Sized> RwLockUpgradableReadGuard<'a, T> {
    pub fn downgrade(s: Self) -> RwLockReadGuard<'a, T> {
        let l = s.0;
        std::mem::forget(s);
        RwLockReadGuard(l)
    }
    pub fn upgrade(s: Self) -> RwLockWriteGuard<'a, T> {
        let l = s.0;
        std::mem::forget(s);
        if l.st.get() != 1 {
            symrt::blocked();
        }
        l.st.set(-1);
        RwLockWriteGuard(l)
    }
}
impl<'a, T: ?Sized> RwLockWriteGuard<'a, T> {
    pub fn downgrade_to_upgradable(s: Self) -> RwLockUpgradableReadGuard<'a, T> {
        let l = s.0;
        std::mem::forget(s);
        l.st.set(1);
        RwLockUpgradableReadGuard(l)
    }
    pub fn downgrade(s: Self) -> RwLockReadGuard<'a, T> {
        let l = s.0;
        std::mem::forget(s);
        l.st.set(1);
        RwLockReadGuard(l)
    }
}
impl<T: ?Sized> Deref for RwLockWriteGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        unsafe { &*self.0.v.get() }
    }
}
impl<T: ?Sized> DerefMut for RwLockWriteGuard<'_, T> {
    fn deref_mut(&mut self) -> &mut T {
        unsafe { &mut *self.0.v.get() }
    }
}
impl<T: ?Sized> Drop for RwLockReadGuard<'_, T> {
    fn drop(&mut self) {
        self.0.st.set(self.0.st.get() - 1);
        symrt::yield_point();
    }
}
impl<T: ?Sized> Drop for RwLockUpgradableReadGuard<'_, T> {
    fn drop(&mut self) {
        self.0.st.set(self.0.st.get() - 1);
        symrt::yield_point();
    }
}
impl<T: ?Sized> Drop for RwLockWriteGuard<'_, T> {
    fn drop(&mut self) {
        self.0.st.set(0);
        symrt::yield_point();
    }
}

pub struct Mutex<T: ?Sized> {
    l: RwLock<T>,
}
pub type MutexGuard<'a, T> = RwLockWriteGuard<'a, T>;
impl<T> Mutex<T> {
    pub const fn new(v: T) -> Self {
        Mutex { l: RwLock::new(v) }
    }
    pub fn into_inner(self) -> T {
        self.l.into_inner()
    }
}
impl<T: ?Sized> Mutex<T> {
    pub fn lock(&self) -> MutexGuard<'_, T> {
        self.l.write()
    }
    pub fn is_locked(&self) -> bool {
        self.l.is_locked()
    }
    pub fn try_lock(&self) -> Option<MutexGuard<'_, T>> {
        self.l.try_write()
    }
    pub fn get_mut(&mut self) -> &mut T {
        self.l.get_mut()
    }
}
impl<T: Default> Default for Mutex<T> {
    fn default() -> Self {
        Mutex::new(T::default())
    }
}
impl<T: ?Sized> fmt::Debug for Mutex<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("Mutex")
    }
}
