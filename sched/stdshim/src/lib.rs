//! Stands in for `std` when the library under test is compiled: everything is the real `std`,
//! except that locks, atomics, condition variables and yields are scheduling points of `rt`.
#![no_std]
#![allow(clippy::all)]
extern crate std as real;
pub use real::*;

pub mod rt;
mod shim;

pub mod sync {
    pub use crate::shim::{
        Condvar, LazyLock, Mutex, MutexGuard, Once, OnceLock, RwLock, RwLockReadGuard, RwLockWriteGuard,
    };
    pub use real::sync::*;
    pub mod atomic {
        pub use crate::shim::{
            AtomicBool, AtomicI16, AtomicI32, AtomicI64, AtomicI8, AtomicIsize, AtomicU16, AtomicU32, AtomicU64,
            AtomicU8, AtomicUsize,
        };
        pub use real::sync::atomic::*;
        pub fn spin_loop_hint() {
            crate::rt::yielding();
        }
    }
}
pub mod thread {
    pub use real::thread::*;
    pub fn yield_now() {
        crate::rt::yielding();
    }
    pub fn sleep(_: core::time::Duration) {
        crate::rt::yielding();
    }
}
pub mod hint {
    pub use real::hint::*;
    pub fn spin_loop() {
        crate::rt::yielding();
    }
}
