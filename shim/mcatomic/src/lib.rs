//! `std::sync` with a scheduling point of the controlled scheduler before each
//! atomic access and each attempt to take a lock. Everything not redefined
//! here is std's.
#![allow(deprecated)]
/// `std`, with the changed module in it.
pub mod s {
    pub use crate::sync;
    pub use std::*;
}
pub mod sync {
    pub use std::sync::*;
    use rayon_core::mc::client_point as point;

    pub mod atomic {
        use super::point;
        pub use std::sync::atomic::*;
        use std::sync::atomic as real;

        macro_rules! shared {
            ($T:ident $(<$P:ident>)?, $v:ty) => {
                #[derive(Debug, Default)]
                #[repr(transparent)]
                pub struct $T $(<$P>)? (real::$T $(<$P>)?);
                impl $(<$P>)? $T $(<$P>)? {
                    pub const fn new(v: $v) -> Self {
                        Self(real::$T::new(v))
                    }
                    pub fn load(&self, o: Ordering) -> $v {
                        point();
                        self.0.load(o)
                    }
                    pub fn store(&self, v: $v, o: Ordering) {
                        point();
                        self.0.store(v, o)
                    }
                    pub fn swap(&self, v: $v, o: Ordering) -> $v {
                        point();
                        self.0.swap(v, o)
                    }
                    pub fn compare_exchange(&self, a: $v, b: $v, s: Ordering, f: Ordering) -> Result<$v, $v> {
                        point();
                        self.0.compare_exchange(a, b, s, f)
                    }
                    pub fn compare_exchange_weak(&self, a: $v, b: $v, s: Ordering, f: Ordering) -> Result<$v, $v> {
                        point();
                        self.0.compare_exchange(a, b, s, f)
                    }
                    pub fn fetch_update<F: FnMut($v) -> Option<$v>>(&self, s: Ordering, f: Ordering, g: F) -> Result<$v, $v> {
                        point();
                        self.0.fetch_update(s, f, g)
                    }
                    pub fn try_update(&self, s: Ordering, f: Ordering, g: impl FnMut($v) -> Option<$v>) -> Result<$v, $v> {
                        point();
                        self.0.fetch_update(s, f, g)
                    }
                    pub fn update(&self, s: Ordering, f: Ordering, mut g: impl FnMut($v) -> $v) -> $v {
                        self.try_update(s, f, |x| Some(g(x))).unwrap_or_else(|x| x)
                    }
                    pub fn get_mut(&mut self) -> &mut $v {
                        self.0.get_mut()
                    }
                    pub fn into_inner(self) -> $v {
                        self.0.into_inner()
                    }
                    pub fn as_ptr(&self) -> *mut $v {
                        self.0.as_ptr()
                    }
                }
                impl $(<$P>)? From<$v> for $T $(<$P>)? {
                    fn from(v: $v) -> Self {
                        Self::new(v)
                    }
                }
            };
        }
        macro_rules! fetch {
            ($T:ident, $v:ty, $($f:ident)*) => {
                impl $T {
                    $(pub fn $f(&self, v: $v, o: Ordering) -> $v {
                        point();
                        self.0.$f(v, o)
                    })*
                }
            };
        }
        macro_rules! ints {
            ($($T:ident $v:ty)*) => { $(
                shared! { $T, $v }
                fetch! { $T, $v, fetch_add fetch_sub fetch_and fetch_nand fetch_or fetch_xor fetch_max fetch_min }
            )* };
        }
        ints! {
            AtomicU8 u8 AtomicU16 u16 AtomicU32 u32 AtomicU64 u64 AtomicUsize usize
            AtomicI8 i8 AtomicI16 i16 AtomicI32 i32 AtomicI64 i64 AtomicIsize isize
        }
        shared! { AtomicBool, bool }
        fetch! { AtomicBool, bool, fetch_and fetch_nand fetch_or fetch_xor }
        impl AtomicBool {
            pub fn fetch_not(&self, o: Ordering) -> bool {
                self.fetch_xor(true, o)
            }
        }
        shared! { AtomicPtr<T>, *mut T }
    }

    #[derive(Debug, Default)]
    pub struct Mutex<T: ?Sized>(std::sync::Mutex<T>);
    impl<T> Mutex<T> {
        pub const fn new(t: T) -> Self {
            Mutex(std::sync::Mutex::new(t))
        }
        pub fn into_inner(self) -> LockResult<T> {
            self.0.into_inner()
        }
    }
    impl<T: ?Sized> Mutex<T> {
        pub fn lock(&self) -> LockResult<MutexGuard<'_, T>> {
            point();
            self.0.lock()
        }
        pub fn try_lock(&self) -> TryLockResult<MutexGuard<'_, T>> {
            point();
            self.0.try_lock()
        }
        pub fn get_mut(&mut self) -> LockResult<&mut T> {
            self.0.get_mut()
        }
        pub fn is_poisoned(&self) -> bool {
            self.0.is_poisoned()
        }
        pub fn clear_poison(&self) {
            self.0.clear_poison()
        }
    }
    #[derive(Debug, Default)]
    pub struct RwLock<T: ?Sized>(std::sync::RwLock<T>);
    impl<T> RwLock<T> {
        pub const fn new(t: T) -> Self {
            RwLock(std::sync::RwLock::new(t))
        }
        pub fn into_inner(self) -> LockResult<T> {
            self.0.into_inner()
        }
    }
    impl<T: ?Sized> RwLock<T> {
        pub fn read(&self) -> LockResult<RwLockReadGuard<'_, T>> {
            point();
            self.0.read()
        }
        pub fn write(&self) -> LockResult<RwLockWriteGuard<'_, T>> {
            point();
            self.0.write()
        }
        pub fn try_read(&self) -> TryLockResult<RwLockReadGuard<'_, T>> {
            point();
            self.0.try_read()
        }
        pub fn try_write(&self) -> TryLockResult<RwLockWriteGuard<'_, T>> {
            point();
            self.0.try_write()
        }
        pub fn get_mut(&mut self) -> LockResult<&mut T> {
            self.0.get_mut()
        }
        pub fn is_poisoned(&self) -> bool {
            self.0.is_poisoned()
        }
    }
}
