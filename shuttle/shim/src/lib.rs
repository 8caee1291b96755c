//! The part of parking_lot's interface which the code under test can reasonably use. On threads
//! which run under shuttle every lock is also a shuttle lock, so that the schedule is chosen by the
//! test; on other threads the locks are plain std locks.
use std::cell::Cell;
use std::fmt;
use std::ops::{Deref, DerefMut};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::PoisonError;

thread_local! {
    static CONTROLLED: Cell<bool> = const { Cell::new(false) };
}
static LOCKS: AtomicU64 = AtomicU64::new(0);

/// Says whether this thread runs under shuttle.
pub fn set_controlled(b: bool) {
    CONTROLLED.with(|c| c.set(b));
}
pub fn controlled() -> bool {
    CONTROLLED.with(|c| c.get())
}
/// How often a lock was taken under shuttle, in the whole process.
pub fn lock_count() -> u64 {
    LOCKS.load(Ordering::Relaxed)
}

type Token<'a> = shuttle::sync::MutexGuard<'a, ()>;

pub struct Mutex<T: ?Sized> {
    token: shuttle::sync::Mutex<()>,
    inner: std::sync::Mutex<T>,
}

// The token is only touched by threads under shuttle, of which one runs at a time.
unsafe impl<T: ?Sized + Send> Send for Mutex<T> {}
unsafe impl<T: ?Sized + Send> Sync for Mutex<T> {}

pub struct MutexGuard<'a, T: ?Sized> {
    // in this order: the data is released first
    inner: Option<std::sync::MutexGuard<'a, T>>,
    token: Option<Token<'a>>,
    lock: &'a Mutex<T>,
}

pub const fn const_mutex<T>(v: T) -> Mutex<T> {
    Mutex::new(v)
}

impl<T> Mutex<T> {
    pub const fn new(v: T) -> Self {
        Mutex { token: shuttle::sync::Mutex::new(()), inner: std::sync::Mutex::new(v) }
    }
    pub fn into_inner(self) -> T {
        self.inner.into_inner().unwrap_or_else(PoisonError::into_inner)
    }
}

impl<T: ?Sized> Mutex<T> {
    pub fn lock(&self) -> MutexGuard<'_, T> {
        let token = controlled().then(|| {
            LOCKS.fetch_add(1, Ordering::Relaxed);
            self.token.lock().unwrap_or_else(PoisonError::into_inner)
        });
        let inner = Some(self.inner.lock().unwrap_or_else(PoisonError::into_inner));
        MutexGuard { inner, token, lock: self }
    }
    pub fn try_lock(&self) -> Option<MutexGuard<'_, T>> {
        let token = if controlled() {
            LOCKS.fetch_add(1, Ordering::Relaxed);
            Some(match self.token.try_lock() {
                Ok(t) => t,
                Err(std::sync::TryLockError::Poisoned(p)) => p.into_inner(),
                Err(std::sync::TryLockError::WouldBlock) => return None,
            })
        } else {
            None
        };
        let inner = match self.inner.try_lock() {
            Ok(g) => g,
            Err(std::sync::TryLockError::Poisoned(p)) => p.into_inner(),
            Err(std::sync::TryLockError::WouldBlock) => return None,
        };
        Some(MutexGuard { inner: Some(inner), token, lock: self })
    }
    pub fn try_lock_for(&self, _d: std::time::Duration) -> Option<MutexGuard<'_, T>> {
        self.try_lock()
    }
    pub fn get_mut(&mut self) -> &mut T {
        self.inner.get_mut().unwrap_or_else(PoisonError::into_inner)
    }
    pub fn is_locked(&self) -> bool {
        self.try_lock().is_none()
    }
}

impl<'a, T: ?Sized> MutexGuard<'a, T> {
    pub fn unlocked<F: FnOnce() -> U, U>(s: &mut Self, f: F) -> U {
        s.inner = None;
        s.token = None;
        let r = f();
        let mut g = s.lock.lock();
        s.token = g.token.take();
        s.inner = g.inner.take();
        r
    }
    pub fn unlock_fair(s: Self) {
        drop(s)
    }
    pub fn bump(s: &mut Self) {
        Self::unlocked(s, || {})
    }
    pub fn mutex(s: &Self) -> &'a Mutex<T> {
        s.lock
    }
}

impl<T: Default> Default for Mutex<T> {
    fn default() -> Self {
        Mutex::new(T::default())
    }
}
impl<T> From<T> for Mutex<T> {
    fn from(v: T) -> Self {
        Mutex::new(v)
    }
}
impl<T: ?Sized + fmt::Debug> fmt::Debug for Mutex<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("Mutex { .. }")
    }
}
impl<T: ?Sized> Deref for MutexGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        self.inner.as_ref().unwrap()
    }
}
impl<T: ?Sized> DerefMut for MutexGuard<'_, T> {
    fn deref_mut(&mut self) -> &mut T {
        self.inner.as_mut().unwrap()
    }
}
impl<T: ?Sized + fmt::Debug> fmt::Debug for MutexGuard<'_, T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        (**self).fmt(f)
    }
}
impl<T: ?Sized + fmt::Display> fmt::Display for MutexGuard<'_, T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        (**self).fmt(f)
    }
}

pub struct RwLock<T: ?Sized> {
    token: shuttle::sync::RwLock<()>,
    inner: std::sync::RwLock<T>,
}
unsafe impl<T: ?Sized + Send> Send for RwLock<T> {}
unsafe impl<T: ?Sized + Send + Sync> Sync for RwLock<T> {}

pub struct RwLockReadGuard<'a, T: ?Sized> {
    inner: std::sync::RwLockReadGuard<'a, T>,
    _token: Option<shuttle::sync::RwLockReadGuard<'a, ()>>,
}
pub struct RwLockWriteGuard<'a, T: ?Sized> {
    inner: std::sync::RwLockWriteGuard<'a, T>,
    _token: Option<shuttle::sync::RwLockWriteGuard<'a, ()>>,
}

impl<T> RwLock<T> {
    pub const fn new(v: T) -> Self {
        RwLock { token: shuttle::sync::RwLock::new(()), inner: std::sync::RwLock::new(v) }
    }
    pub fn into_inner(self) -> T {
        self.inner.into_inner().unwrap_or_else(PoisonError::into_inner)
    }
}
impl<T: ?Sized> RwLock<T> {
    pub fn read(&self) -> RwLockReadGuard<'_, T> {
        let _token = controlled().then(|| {
            LOCKS.fetch_add(1, Ordering::Relaxed);
            self.token.read().unwrap_or_else(PoisonError::into_inner)
        });
        RwLockReadGuard { inner: self.inner.read().unwrap_or_else(PoisonError::into_inner), _token }
    }
    pub fn write(&self) -> RwLockWriteGuard<'_, T> {
        let _token = controlled().then(|| {
            LOCKS.fetch_add(1, Ordering::Relaxed);
            self.token.write().unwrap_or_else(PoisonError::into_inner)
        });
        RwLockWriteGuard { inner: self.inner.write().unwrap_or_else(PoisonError::into_inner), _token }
    }
    pub fn get_mut(&mut self) -> &mut T {
        self.inner.get_mut().unwrap_or_else(PoisonError::into_inner)
    }
}
impl<T: Default> Default for RwLock<T> {
    fn default() -> Self {
        RwLock::new(T::default())
    }
}
impl<T: ?Sized> fmt::Debug for RwLock<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("RwLock { .. }")
    }
}
impl<T: ?Sized> Deref for RwLockReadGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        &self.inner
    }
}
impl<T: ?Sized> Deref for RwLockWriteGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        &self.inner
    }
}
impl<T: ?Sized> DerefMut for RwLockWriteGuard<'_, T> {
    fn deref_mut(&mut self) -> &mut T {
        &mut self.inner
    }
}
