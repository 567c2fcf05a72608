//! Single-task view of tokio: locks are never contended, futures complete when polled.
pub mod sync {
    use std::cell::UnsafeCell;
    use std::ops::{Deref, DerefMut};

    #[derive(Default)]
    pub struct RwLock<T>(UnsafeCell<T>);
    unsafe impl<T: Send> Send for RwLock<T> {}
    unsafe impl<T: Send> Sync for RwLock<T> {}
    pub struct RwLockReadGuard<'a, T>(&'a T);
    pub struct RwLockWriteGuard<'a, T>(&'a mut T);
    impl<T> RwLock<T> {
        pub fn new(x: T) -> Self {
            RwLock(UnsafeCell::new(x))
        }
        pub async fn read(&self) -> RwLockReadGuard<'_, T> {
            RwLockReadGuard(unsafe { &*self.0.get() })
        }
        pub async fn write(&self) -> RwLockWriteGuard<'_, T> {
            RwLockWriteGuard(unsafe { &mut *self.0.get() })
        }
    }
    impl<T> Deref for RwLockReadGuard<'_, T> {
        type Target = T;
        fn deref(&self) -> &T {
            self.0
        }
    }
    impl<T> Deref for RwLockWriteGuard<'_, T> {
        type Target = T;
        fn deref(&self) -> &T {
            self.0
        }
    }
    impl<T> DerefMut for RwLockWriteGuard<'_, T> {
        fn deref_mut(&mut self) -> &mut T {
            self.0
        }
    }
    impl<T> std::fmt::Debug for RwLock<T> {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            f.write_str("RwLock")
        }
    }
    pub type Mutex<T> = RwLock<T>;
    impl<T> RwLock<T> {
        pub async fn lock(&self) -> RwLockWriteGuard<'_, T> {
            self.write().await
        }
    }
}

/// Drive a future that never waits.
pub fn run<F: core::future::Future>(f: F) -> F::Output {
    use core::task::{Context, Poll, RawWaker, RawWakerVTable, Waker};
    fn clone(_: *const ()) -> RawWaker {
        RawWaker::new(core::ptr::null(), &V)
    }
    fn nop(_: *const ()) {}
    static V: RawWakerVTable = RawWakerVTable::new(clone, nop, nop, nop);
    let w = core::mem::ManuallyDrop::new(unsafe { Waker::from_raw(RawWaker::new(core::ptr::null(), &V)) });
    let mut cx = Context::from_waker(&w);
    let mut f = core::mem::ManuallyDrop::new(f);
    let p = unsafe { core::pin::Pin::new_unchecked(&mut *f) };
    match p.poll(&mut cx) {
        Poll::Ready(x) => x,
        Poll::Pending => panic!("model capacity exceeded"),
    }
}
pub mod time {
    pub use std::time::Duration;
}
