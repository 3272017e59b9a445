use crate::rt::{self, Op};
use core::{
    fmt,
    ops::{Deref, DerefMut},
};
use real::{
    prelude::v1::*,
    sync::{self as s, LockResult, PoisonError, TryLockError, TryLockResult},
};

fn addr<T: ?Sized>(x: &T) -> usize {
    x as *const T as *const u8 as usize
}
fn wrap<A, B>(r: LockResult<A>, f: impl FnOnce(A) -> B) -> LockResult<B> {
    match r {
        Ok(a) => Ok(f(a)),
        Err(e) => Err(PoisonError::new(f(e.into_inner()))),
    }
}
macro_rules! guard { ($g:ident $r:ident $($m:ident)?) => {
    #[must_use]
    pub struct $g<'a, T: ?Sized + 'a> { g: Option<s::$r<'a, T>>, o: usize }
    impl<'a, T: ?Sized> $g<'a, T> {
        fn new(g: s::$r<'a, T>, o: usize) -> Self { $g { g: Some(g), o } }
    }
    impl<T: ?Sized> Deref for $g<'_, T> { type Target = T; fn deref(&self) -> &T { self.g.as_ref().unwrap() } }
    $(impl<T: ?Sized> $m for $g<'_, T> { fn deref_mut(&mut self) -> &mut T { self.g.as_mut().unwrap() } })?
    impl<T: ?Sized> Drop for $g<'_, T> { fn drop(&mut self) {
        if self.g.is_some() {
            rt::point(Op::Release, self.o);
            rt::untake(self.o);
            self.g = None;
        }
    } }
    impl<T: ?Sized + fmt::Debug> fmt::Debug for $g<'_, T> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { (**self).fmt(f) } }
    impl<T: ?Sized + fmt::Display> fmt::Display for $g<'_, T> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { (**self).fmt(f) } }
} }
guard! { MutexGuard MutexGuard DerefMut }
guard! { RwLockReadGuard RwLockReadGuard }
guard! { RwLockWriteGuard RwLockWriteGuard DerefMut }

macro_rules! common { ($l:ident) => {
    impl<T> $l<T> {
        pub const fn new(t: T) -> Self { $l { i: s::$l::new(t) } }
        pub fn into_inner(self) -> LockResult<T> { self.i.into_inner() }
    }
    impl<T: ?Sized> $l<T> {
        pub fn is_poisoned(&self) -> bool { self.i.is_poisoned() }
        pub fn clear_poison(&self) { self.i.clear_poison() }
        pub fn get_mut(&mut self) -> LockResult<&mut T> { self.i.get_mut() }
    }
    impl<T: Default> Default for $l<T> { fn default() -> Self { Self::new(T::default()) } }
    impl<T> From<T> for $l<T> { fn from(t: T) -> Self { Self::new(t) } }
    impl<T: ?Sized + fmt::Debug> fmt::Debug for $l<T> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { self.i.fmt(f) } }
} }
pub struct Mutex<T: ?Sized> {
    i: s::Mutex<T>,
}
common! { Mutex }
impl<T: ?Sized> Mutex<T> {
    pub fn lock(&self) -> LockResult<MutexGuard<'_, T>> {
        let o = addr(self);
        rt::point(Op::Lock, o);
        wrap(self.i.lock(), |g| MutexGuard::new(g, o))
    }
    pub fn try_lock(&self) -> TryLockResult<MutexGuard<'_, T>> {
        let o = addr(self);
        if rt::point(Op::Try, o) && !rt::take(o, true) {
            return Err(TryLockError::WouldBlock);
        }
        match self.i.try_lock() {
            Ok(g) => Ok(MutexGuard::new(g, o)),
            Err(TryLockError::WouldBlock) => Err(TryLockError::WouldBlock),
            Err(TryLockError::Poisoned(e)) => {
                Err(TryLockError::Poisoned(PoisonError::new(MutexGuard::new(e.into_inner(), o))))
            }
        }
    }
}
pub struct RwLock<T: ?Sized> {
    i: s::RwLock<T>,
}
common! { RwLock }
impl<T: ?Sized> RwLock<T> {
    pub fn read(&self) -> LockResult<RwLockReadGuard<'_, T>> {
        let o = addr(self);
        rt::point(Op::Read, o);
        wrap(self.i.read(), |g| RwLockReadGuard::new(g, o))
    }
    pub fn write(&self) -> LockResult<RwLockWriteGuard<'_, T>> {
        let o = addr(self);
        rt::point(Op::Write, o);
        wrap(self.i.write(), |g| RwLockWriteGuard::new(g, o))
    }
    pub fn try_read(&self) -> TryLockResult<RwLockReadGuard<'_, T>> {
        let o = addr(self);
        if rt::point(Op::Try, o) && !rt::take(o, false) {
            return Err(TryLockError::WouldBlock);
        }
        match self.i.try_read() {
            Ok(g) => Ok(RwLockReadGuard::new(g, o)),
            Err(TryLockError::WouldBlock) => Err(TryLockError::WouldBlock),
            Err(TryLockError::Poisoned(e)) => {
                Err(TryLockError::Poisoned(PoisonError::new(RwLockReadGuard::new(e.into_inner(), o))))
            }
        }
    }
    pub fn try_write(&self) -> TryLockResult<RwLockWriteGuard<'_, T>> {
        let o = addr(self);
        if rt::point(Op::Try, o) && !rt::take(o, true) {
            return Err(TryLockError::WouldBlock);
        }
        match self.i.try_write() {
            Ok(g) => Ok(RwLockWriteGuard::new(g, o)),
            Err(TryLockError::WouldBlock) => Err(TryLockError::WouldBlock),
            Err(TryLockError::Poisoned(e)) => {
                Err(TryLockError::Poisoned(PoisonError::new(RwLockWriteGuard::new(e.into_inner(), o))))
            }
        }
    }
}

#[derive(Default, Debug)]
pub struct Condvar {
    i: s::Condvar,
}
impl Condvar {
    pub const fn new() -> Self {
        Condvar { i: s::Condvar::new() }
    }
    pub fn wait<'a, T>(&self, mut g: MutexGuard<'a, T>) -> LockResult<MutexGuard<'a, T>> {
        if !rt::controlled() {
            let o = g.o;
            return wrap(self.i.wait(g.g.take().unwrap()), |g| MutexGuard::new(g, o));
        }
        let o = g.o;
        // SAFETY: the guard keeps the mutex borrowed for 'a, and the mutex is the object at `o`
        let m: &'a Mutex<T> = unsafe { Self::owner(o) };
        rt::untake(o);
        g.g = None;
        rt::wait_on(addr(self));
        drop(g);
        m.lock()
    }
    unsafe fn owner<'a, T>(o: usize) -> &'a Mutex<T> {
        &*(o as *const Mutex<T>)
    }
    pub fn wait_while<'a, T>(
        &self,
        mut g: MutexGuard<'a, T>,
        mut f: impl FnMut(&mut T) -> bool,
    ) -> LockResult<MutexGuard<'a, T>> {
        while f(&mut g) {
            g = self.wait(g)?;
        }
        Ok(g)
    }
    pub fn notify_one(&self) {
        if rt::controlled() {
            rt::notify(addr(self), false)
        }
        self.i.notify_one()
    }
    pub fn notify_all(&self) {
        if rt::controlled() {
            rt::notify(addr(self), true)
        }
        self.i.notify_all()
    }
}

#[derive(Debug)]
pub struct Once {
    i: s::Once,
}
impl Once {
    pub const fn new() -> Self {
        Once { i: s::Once::new() }
    }
    pub fn call_once(&self, f: impl FnOnce()) {
        rt::point(Op::Atomic, addr(self));
        rt::atomically(|| self.i.call_once(f))
    }
    pub fn is_completed(&self) -> bool {
        self.i.is_completed()
    }
}
#[derive(Debug)]
pub struct OnceLock<T> {
    i: s::OnceLock<T>,
}
impl<T> Default for OnceLock<T> {
    fn default() -> Self {
        Self::new()
    }
}
impl<T> OnceLock<T> {
    pub const fn new() -> Self {
        OnceLock { i: s::OnceLock::new() }
    }
    pub fn get(&self) -> Option<&T> {
        rt::point(Op::Atomic, addr(self));
        self.i.get()
    }
    pub fn get_mut(&mut self) -> Option<&mut T> {
        self.i.get_mut()
    }
    pub fn set(&self, t: T) -> Result<(), T> {
        rt::point(Op::Atomic, addr(self));
        self.i.set(t)
    }
    pub fn get_or_init(&self, f: impl FnOnce() -> T) -> &T {
        rt::point(Op::Atomic, addr(self));
        rt::atomically(|| self.i.get_or_init(f))
    }
    pub fn into_inner(self) -> Option<T> {
        self.i.into_inner()
    }
    pub fn take(&mut self) -> Option<T> {
        self.i.take()
    }
}
#[derive(Debug)]
pub struct LazyLock<T, F = fn() -> T> {
    i: s::LazyLock<T, F>,
}
impl<T, F: FnOnce() -> T> LazyLock<T, F> {
    pub const fn new(f: F) -> Self {
        LazyLock { i: s::LazyLock::new(f) }
    }
    pub fn force(this: &Self) -> &T {
        rt::atomically(|| s::LazyLock::force(&this.i))
    }
}
impl<T, F: FnOnce() -> T> Deref for LazyLock<T, F> {
    type Target = T;
    fn deref(&self) -> &T {
        Self::force(self)
    }
}

use s::atomic::Ordering;
macro_rules! atomic { ($($a:ident $t:ty, $($num:ident)?;)*) => {$(
    #[repr(transparent)]
    #[derive(Default)]
    pub struct $a { i: s::atomic::$a }
    impl $a {
        pub const fn new(t: $t) -> Self { $a { i: s::atomic::$a::new(t) } }
        fn p(&self) -> &s::atomic::$a { rt::point(Op::Atomic, addr(self)); &self.i }
        pub fn load(&self, o: Ordering) -> $t { self.p().load(o) }
        pub fn store(&self, t: $t, o: Ordering) { self.p().store(t, o) }
        pub fn swap(&self, t: $t, o: Ordering) -> $t { self.p().swap(t, o) }
        pub fn compare_exchange(&self, a: $t, b: $t, o: Ordering, p: Ordering) -> Result<$t, $t> { self.p().compare_exchange(a, b, o, p) }
        pub fn compare_exchange_weak(&self, a: $t, b: $t, o: Ordering, p: Ordering) -> Result<$t, $t> { self.p().compare_exchange(a, b, o, p) }
        #[allow(deprecated)]
        pub fn compare_and_swap(&self, a: $t, b: $t, o: Ordering) -> $t { self.p().compare_and_swap(a, b, o) }
        pub fn fetch_and(&self, t: $t, o: Ordering) -> $t { self.p().fetch_and(t, o) }
        pub fn fetch_or(&self, t: $t, o: Ordering) -> $t { self.p().fetch_or(t, o) }
        pub fn fetch_xor(&self, t: $t, o: Ordering) -> $t { self.p().fetch_xor(t, o) }
        pub fn fetch_nand(&self, t: $t, o: Ordering) -> $t { self.p().fetch_nand(t, o) }
        pub fn fetch_update(&self, set: Ordering, get: Ordering, mut f: impl FnMut($t) -> Option<$t>) -> Result<$t, $t> {
            let mut v = self.load(get);
            while let Some(n) = f(v) {
                match self.compare_exchange_weak(v, n, set, get) { Ok(x) => return Ok(x), Err(x) => v = x }
            }
            Err(v)
        }
        pub fn get_mut(&mut self) -> &mut $t { self.i.get_mut() }
        pub fn into_inner(self) -> $t { self.i.into_inner() }
        $(
        pub fn fetch_add(&self, t: $num, o: Ordering) -> $t { self.p().fetch_add(t, o) }
        pub fn fetch_sub(&self, t: $num, o: Ordering) -> $t { self.p().fetch_sub(t, o) }
        pub fn fetch_max(&self, t: $num, o: Ordering) -> $t { self.p().fetch_max(t, o) }
        pub fn fetch_min(&self, t: $num, o: Ordering) -> $t { self.p().fetch_min(t, o) }
        )?
    }
    impl From<$t> for $a { fn from(t: $t) -> Self { Self::new(t) } }
    impl fmt::Debug for $a { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { self.i.fmt(f) } }
)*} }
atomic! {
    AtomicBool bool, ;
    AtomicI8 i8, i8; AtomicI16 i16, i16; AtomicI32 i32, i32; AtomicI64 i64, i64; AtomicIsize isize, isize;
    AtomicU8 u8, u8; AtomicU16 u16, u16; AtomicU32 u32, u32; AtomicU64 u64, u64; AtomicUsize usize, usize;
}
