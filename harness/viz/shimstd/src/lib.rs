//! std, with threads, locks and atomics that a schedule explorer controls and arguments that the
//! harness sets.
pub use ::std::*;

pub mod sync {
    pub use ::std::sync::*;
    pub use shuttle::sync::{mpsc, Arc, Barrier, BarrierWaitResult, Condvar, Mutex, MutexGuard, Once, OnceState,
                            RwLock, RwLockReadGuard, RwLockWriteGuard, WaitTimeoutResult, Weak};
    pub mod atomic {
        pub use ::std::sync::atomic::*;
        pub use shuttle::sync::atomic::{compiler_fence, fence, AtomicBool, AtomicI16, AtomicI32, AtomicI64, AtomicI8,
                                        AtomicIsize, AtomicPtr, AtomicU16, AtomicU32, AtomicU64, AtomicU8,
                                        AtomicUsize};
    }
}

pub mod thread {
    pub use ::std::thread::*;
    pub use shuttle::thread::{current, park, park_timeout, scope, sleep, spawn, yield_now, Builder, JoinHandle,
                              Scope, ScopedJoinHandle, Thread, ThreadId};
}

pub mod env {
    pub use ::std::env::*;
    pub static ARGS: ::std::sync::Mutex<Vec<String>> = ::std::sync::Mutex::new(Vec::new());
    pub fn args() -> ::std::vec::IntoIter<String> {
        ARGS.lock().unwrap_or_else(|e| e.into_inner()).clone().into_iter()
    }
}
