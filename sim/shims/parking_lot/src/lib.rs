//! Stand-in: a lock whose being taken the harness decides.
use std::cell::UnsafeCell;
pub static mut TAKEN: bool = false;
pub struct RwLock<T>(UnsafeCell<T>);
unsafe impl<T> Send for RwLock<T> {} unsafe impl<T> Sync for RwLock<T> {}
impl<T> RwLock<T> { pub fn new(t: T) -> Self { RwLock(UnsafeCell::new(t)) } pub fn try_read(&self) -> Option<&T> { if unsafe { TAKEN } { None } else { Some(unsafe { &*self.0.get() }) } } pub fn read(&self) -> &T { unsafe { &*self.0.get() } } pub fn try_write(&self) -> Option<&mut T> { if unsafe { TAKEN } { None } else { Some(unsafe { &mut *self.0.get() }) } } }
