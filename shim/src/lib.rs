//! Stands for `std` in the copy of the crate under test used by C07 & C10 (see tools/gen_sut.py): everything is the real thing,
//! but atomics, mutexes, spinning & yielding, which are scheduling points when executed inside of [sched::run()].
//! Outside of it, these are the real things, too.

#![allow(clippy::all)]
pub use ::std::*;

pub mod sched;

pub mod hint {
    pub use ::std::hint::*;
    pub fn spin_loop() { if crate::sched::active() { crate::sched::yield_now() } else { ::std::hint::spin_loop() } }
}
pub mod thread {
    pub use ::std::thread::*;
    pub fn yield_now() { if crate::sched::active() { crate::sched::yield_now() } else { ::std::thread::yield_now() } }
}

pub mod sync {
    pub use ::std::sync::*;

    /// a mutex whose contention is resolved by the scheduler
    #[derive(Debug, Default)]
    pub struct Mutex<T: ?Sized> { inner: ::std::sync::Mutex<T> }
    pub struct MutexGuard<'a, T: ?Sized> { guard: Option<::std::sync::MutexGuard<'a, T>>, addr: usize }
    impl<T> Mutex<T> {
        pub const fn new(t: T) -> Self { Mutex { inner: ::std::sync::Mutex::new(t) } }
        pub fn into_inner(self) -> LockResult<T> { self.inner.into_inner() }
    }
    impl<T: ?Sized> Mutex<T> {
        fn addr(&self) -> usize { self as *const Self as *const u8 as usize }
        fn wrap<'a>(&'a self, g: ::std::sync::MutexGuard<'a, T>) -> MutexGuard<'a, T> {
            crate::sched::on_access(self.addr(), Some(::std::sync::atomic::Ordering::Acquire), None);
            MutexGuard { guard: Some(g), addr: self.addr() }
        }
        pub fn lock(&self) -> LockResult<MutexGuard<'_, T>> {
            if !crate::sched::active() { return match self.inner.lock() { Ok(g) => Ok(MutexGuard { guard: Some(g), addr: 0 }), Err(p) => Err(PoisonError::new(MutexGuard { guard: Some(p.into_inner()), addr: 0 })) } }
            crate::sched::step();
            loop {
                match self.inner.try_lock() {
                    Ok(g) => return Ok(self.wrap(g)),
                    Err(TryLockError::Poisoned(p)) => return Err(PoisonError::new(self.wrap(p.into_inner()))),
                    Err(TryLockError::WouldBlock) => crate::sched::yield_now(),
                }
            }
        }
        pub fn try_lock(&self) -> TryLockResult<MutexGuard<'_, T>> {
            crate::sched::step();
            match self.inner.try_lock() {
                Ok(g) => Ok(self.wrap(g)),
                Err(TryLockError::Poisoned(p)) => Err(TryLockError::Poisoned(PoisonError::new(self.wrap(p.into_inner())))),
                Err(TryLockError::WouldBlock) => Err(TryLockError::WouldBlock),
            }
        }
        pub fn is_poisoned(&self) -> bool { self.inner.is_poisoned() }
        pub fn get_mut(&mut self) -> LockResult<&mut T> { self.inner.get_mut() }
    }
    impl<T: ?Sized> ::std::ops::Deref for MutexGuard<'_, T> { type Target = T; fn deref(&self) -> &T { self.guard.as_ref().unwrap() } }
    impl<T: ?Sized> ::std::ops::DerefMut for MutexGuard<'_, T> { fn deref_mut(&mut self) -> &mut T { self.guard.as_mut().unwrap() } }
    impl<T: ?Sized> Drop for MutexGuard<'_, T> {
        fn drop(&mut self) {
            crate::sched::step();
            crate::sched::on_access(self.addr, None, Some(::std::sync::atomic::Ordering::Release));
            self.guard.take();
        }
    }

    /// a read-write lock whose contention is resolved by the scheduler
    #[derive(Debug, Default)]
    pub struct RwLock<T: ?Sized> { inner: ::std::sync::RwLock<T> }
    impl<T> RwLock<T> {
        pub const fn new(t: T) -> Self { RwLock { inner: ::std::sync::RwLock::new(t) } }
        pub fn into_inner(self) -> LockResult<T> { self.inner.into_inner() }
    }
    macro_rules! rw { ($guard: ident, $wrap: ident, $lock: ident, $try: ident) => {
        #[derive(Debug)]
        pub struct $guard<'a, T: ?Sized> { guard: Option<::std::sync::$guard<'a, T>>, addr: usize }
        impl<T: ?Sized> RwLock<T> {
            fn $wrap<'a>(&'a self, g: ::std::sync::$guard<'a, T>) -> $guard<'a, T> {
                let addr = self as *const Self as *const u8 as usize;
                crate::sched::on_access(addr, Some(::std::sync::atomic::Ordering::Acquire), None);
                $guard { guard: Some(g), addr }
            }
            pub fn $lock(&self) -> LockResult<$guard<'_, T>> {
                if !crate::sched::active() { return match self.inner.$lock() { Ok(g) => Ok(self.$wrap(g)), Err(p) => Err(PoisonError::new(self.$wrap(p.into_inner()))) } }
                loop {
                    match self.$try() {
                        Ok(g) => return Ok(g),
                        Err(TryLockError::Poisoned(p)) => return Err(p),
                        Err(TryLockError::WouldBlock) => crate::sched::yield_now(),
                    }
                }
            }
            pub fn $try(&self) -> TryLockResult<$guard<'_, T>> {
                crate::sched::step();
                match self.inner.$try() {
                    Ok(g) => Ok(self.$wrap(g)),
                    Err(TryLockError::Poisoned(p)) => Err(TryLockError::Poisoned(PoisonError::new(self.$wrap(p.into_inner())))),
                    Err(TryLockError::WouldBlock) => Err(TryLockError::WouldBlock),
                }
            }
        }
        impl<T: ?Sized> ::std::ops::Deref for $guard<'_, T> { type Target = T; fn deref(&self) -> &T { self.guard.as_ref().unwrap() } }
        impl<T: ?Sized> Drop for $guard<'_, T> {
            fn drop(&mut self) {
                crate::sched::step();
                // continues the release sequence: several readers may hold it
                if crate::sched::active() { crate::sched::on_rmw(self.addr, ::std::sync::atomic::Ordering::Release); }
                self.guard.take();
            }
        }
    } }
    rw!(RwLockReadGuard, wrap_read, read, try_read);
    rw!(RwLockWriteGuard, wrap_write, write, try_write);
    impl<T: ?Sized> ::std::ops::DerefMut for RwLockWriteGuard<'_, T> { fn deref_mut(&mut self) -> &mut T { self.guard.as_mut().unwrap() } }
    impl<T: ?Sized> RwLock<T> {
        pub fn is_poisoned(&self) -> bool { self.inner.is_poisoned() }
        pub fn get_mut(&mut self) -> LockResult<&mut T> { self.inner.get_mut() }
    }

    pub mod atomic {
        pub use ::std::sync::atomic::*;
        use ::std::sync::atomic as real;
        use crate::sched::{self, on_access, on_rmw, step};

        fn load_part(o: Ordering) -> Option<Ordering> { Some(o) }
        pub fn fence(o: Ordering) { if sched::active() { step(); sched::on_fence(o); } real::fence(o) }
        pub fn compiler_fence(o: Ordering) { real::compiler_fence(o) }
        pub fn spin_loop_hint() { crate::hint::spin_loop() }

        macro_rules! basics { ($name: ident, $t: ty, [$($g: tt)*]) => {
            impl<$($g)*> $name<$($g)*> {
                fn addr(&self) -> usize { self as *const Self as usize }
                fn before(&self) { if sched::weak_memory() { sched::before(self.addr(), sched::bits(self.inner.load(Ordering::SeqCst))) } }
                fn after(&self, stored: bool) { if sched::weak_memory() { sched::after(self.addr(), sched::bits(self.inner.load(Ordering::SeqCst)), stored) } }
                pub const fn new(v: $t) -> Self { Self { inner: real::$name::new(v) } }
                pub fn load(&self, o: Ordering) -> $t {
                    if !sched::active() { return self.inner.load(o); }
                    step();
                    self.before();
                    if let Some(b) = sched::stale_load(self.addr(), o) { return sched::from_bits(b); }
                    on_access(self.addr(), load_part(o), None);
                    self.after(false);
                    self.inner.load(o)
                }
                pub fn store(&self, v: $t, o: Ordering) {
                    if !sched::active() { return self.inner.store(v, o); }
                    step();
                    self.before();
                    on_access(self.addr(), None, Some(o));
                    self.inner.store(v, o);
                    self.after(true)
                }
                pub fn swap(&self, v: $t, o: Ordering) -> $t {
                    if !sched::active() { return self.inner.swap(v, o); }
                    step();
                    self.before();
                    on_rmw(self.addr(), o);
                    let r = self.inner.swap(v, o);
                    self.after(true);
                    r
                }
                pub fn compare_exchange(&self, current: $t, new: $t, success: Ordering, failure: Ordering) -> Result<$t, $t> {
                    if !sched::active() { return self.inner.compare_exchange(current, new, success, failure); }
                    step();
                    self.before();
                    let r = self.inner.compare_exchange(current, new, success, failure);
                    if r.is_ok() { on_rmw(self.addr(), success) } else { on_access(self.addr(), load_part(failure), None) }
                    self.after(r.is_ok());
                    r
                }
                pub fn compare_exchange_weak(&self, current: $t, new: $t, success: Ordering, failure: Ordering) -> Result<$t, $t> {
                    if !sched::active() { return self.inner.compare_exchange_weak(current, new, success, failure); }
                    step();
                    self.before();
                    if sched::spurious_failure() {
                        on_access(self.addr(), load_part(failure), None);
                        self.after(false);
                        return Err(self.inner.load(Ordering::SeqCst));
                    }
                    let r = self.inner.compare_exchange(current, new, success, failure);
                    if r.is_ok() { on_rmw(self.addr(), success) } else { on_access(self.addr(), load_part(failure), None) }
                    self.after(r.is_ok());
                    r
                }
                pub fn fetch_update<F: FnMut($t) -> Option<$t>>(&self, set: Ordering, fetch: Ordering, mut f: F) -> Result<$t, $t> {
                    let mut prev = self.load(fetch);
                    while let Some(next) = f(prev) {
                        match self.compare_exchange_weak(prev, next, set, fetch) { x @ Ok(_) => return x, Err(p) => prev = p }
                    }
                    Err(prev)
                }
                pub fn try_update(&self, set: Ordering, fetch: Ordering, f: impl FnMut($t) -> Option<$t>) -> Result<$t, $t> { self.fetch_update(set, fetch, f) }
                pub fn update(&self, set: Ordering, fetch: Ordering, mut f: impl FnMut($t) -> $t) -> $t { match self.fetch_update(set, fetch, |v| Some(f(v))) { Ok(v) | Err(v) => v } }
                pub fn get_mut(&mut self) -> &mut $t { self.inner.get_mut() }
                pub fn into_inner(self) -> $t { self.inner.into_inner() }
                pub const fn as_ptr(&self) -> *mut $t { self.inner.as_ptr() }
            }
            impl<$($g)*> ::std::fmt::Debug for $name<$($g)*> { fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result { ::std::fmt::Debug::fmt(&self.inner, f) } }
            impl<$($g)*> From<$t> for $name<$($g)*> { fn from(v: $t) -> Self { Self::new(v) } }
        } }
        macro_rules! rmw { ($t: ty, $($op: ident)*) => { $(
            pub fn $op(&self, v: $t, o: Ordering) -> $t {
                if !sched::active() { return self.inner.$op(v, o); }
                step();
                self.before();
                on_rmw(self.addr(), o);
                let r = self.inner.$op(v, o);
                self.after(true);
                r
            } )* } }
        macro_rules! int { ($($name: ident: $t: ty),*) => { $(
            #[derive(Default)] #[repr(transparent)]
            pub struct $name { inner: real::$name }
            basics!($name, $t, []);
            impl $name { rmw!($t, fetch_add fetch_sub fetch_and fetch_nand fetch_or fetch_xor fetch_max fetch_min); }
        )* } }
        int!(AtomicU8: u8, AtomicU16: u16, AtomicU32: u32, AtomicU64: u64, AtomicUsize: usize, AtomicI8: i8, AtomicI16: i16, AtomicI32: i32, AtomicI64: i64, AtomicIsize: isize);

        #[derive(Default)] #[repr(transparent)]
        pub struct AtomicBool { inner: real::AtomicBool }
        basics!(AtomicBool, bool, []);
        impl AtomicBool { rmw!(bool, fetch_and fetch_nand fetch_or fetch_xor); }

        #[repr(transparent)]
        pub struct AtomicPtr<T> { inner: real::AtomicPtr<T> }
        basics!(AtomicPtr, *mut T, [T]);
    }
}
