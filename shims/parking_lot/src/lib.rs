//! Locks without contention: every operation the verified code performs under a lock is atomic.
use core::cell::{Ref, RefCell, RefMut};
#[derive(Debug, Default)]
pub struct RwLock<T>(RefCell<T>);
unsafe impl<T> Sync for RwLock<T> {}
impl<T> RwLock<T> {
    pub const fn new(x: T) -> Self {
        Self(RefCell::new(x))
    }
    pub fn read(&self) -> Ref<'_, T> {
        self.0.borrow()
    }
    pub fn write(&self) -> RefMut<'_, T> {
        self.0.borrow_mut()
    }
    pub fn into_inner(self) -> T {
        self.0.into_inner()
    }
}
