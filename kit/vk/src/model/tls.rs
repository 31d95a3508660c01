//! thread_local!, single-flow view: one value, created on first use.
use std::cell::{Cell, RefCell, UnsafeCell};
pub struct LocalKey<T: 'static> { magic: u64, v: UnsafeCell<Option<T>>, f: fn() -> T }
unsafe impl<T> Sync for LocalKey<T> {}
impl<T: 'static> LocalKey<T> {
    pub const fn vp_new(f: fn() -> T) -> Self { LocalKey { magic: 0x715, v: UnsafeCell::new(None), f } }
    fn get_ref(&'static self) -> &'static T {
        unsafe {
            if (*self.v.get()).is_none() { let t = (self.f)(); *self.v.get() = Some(t); }
            (*self.v.get()).as_ref().unwrap()
        }
    }
    pub fn with<R>(&'static self, f: impl FnOnce(&T) -> R) -> R { f(self.get_ref()) }
    pub fn try_with<R>(&'static self, f: impl FnOnce(&T) -> R) -> Result<R, std::thread::AccessError> { Ok(f(self.get_ref())) }
}
impl<T: 'static> LocalKey<RefCell<T>> {
    pub fn with_borrow<R>(&'static self, f: impl FnOnce(&T) -> R) -> R { f(&self.get_ref().borrow()) }
    pub fn with_borrow_mut<R>(&'static self, f: impl FnOnce(&mut T) -> R) -> R { f(&mut self.get_ref().borrow_mut()) }
    pub fn set(&'static self, t: T) { *self.get_ref().borrow_mut() = t; }
    pub fn take(&'static self) -> T where T: Default { self.get_ref().take() }
    pub fn replace(&'static self, t: T) -> T { self.get_ref().replace(t) }
}
impl<T: 'static> LocalKey<Cell<T>> {
    pub fn get(&'static self) -> T where T: Copy { self.get_ref().get() }
    pub fn set(&'static self, t: T) { self.get_ref().set(t) }
    pub fn take(&'static self) -> T where T: Default { self.get_ref().take() }
    pub fn replace(&'static self, t: T) -> T { self.get_ref().replace(t) }
}
#[macro_export]
macro_rules! vk_thread_local {
    () => {};
    ($(#[$a:meta])* $vis:vis static $n:ident : $t:ty = const { $e:expr } ; $($r:tt)*) => { $vis static $n: $crate::model::tls::LocalKey<$t> = $crate::model::tls::LocalKey::vp_new(|| $e); $crate::vk_thread_local!{$($r)*} };
    ($(#[$a:meta])* $vis:vis static $n:ident : $t:ty = const { $e:expr }) => { $crate::vk_thread_local!{ $vis static $n : $t = const { $e }; } };
    ($(#[$a:meta])* $vis:vis static $n:ident : $t:ty = $e:expr ; $($r:tt)*) => { $vis static $n: $crate::model::tls::LocalKey<$t> = $crate::model::tls::LocalKey::vp_new(|| $e); $crate::vk_thread_local!{$($r)*} };
    ($(#[$a:meta])* $vis:vis static $n:ident : $t:ty = $e:expr) => { $crate::vk_thread_local!{ $vis static $n : $t = $e; } };
}
