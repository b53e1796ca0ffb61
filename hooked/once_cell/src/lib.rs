//! once_cell's interface with scheduling points
pub mod sync {
    use std::cell::{Cell, UnsafeCell};
    use std::fmt;
    use std::ops::Deref;
    use std::sync::atomic::{AtomicBool, Ordering::SeqCst};
    use vsched::{point, release_point, Op};

    pub struct OnceCell<T> {
        busy: AtomicBool,
        full: AtomicBool,
        v: UnsafeCell<Option<T>>,
    }
    unsafe impl<T: Send + Sync> Sync for OnceCell<T> {}
    unsafe impl<T: Send> Send for OnceCell<T> {}
    impl<T> std::panic::RefUnwindSafe for OnceCell<T> {}
    impl<T> Default for OnceCell<T> {
        fn default() -> Self {
            Self::new()
        }
    }
    impl<T: fmt::Debug> fmt::Debug for OnceCell<T> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            f.debug_tuple("OnceCell").field(&self.peek()).finish()
        }
    }
    impl<T: Clone> Clone for OnceCell<T> {
        fn clone(&self) -> Self {
            match self.peek() {
                Some(v) => Self::with_value(v.clone()),
                None => Self::new(),
            }
        }
    }
    impl<T: PartialEq> PartialEq for OnceCell<T> {
        fn eq(&self, o: &Self) -> bool {
            self.peek() == o.peek()
        }
    }
    impl<T: Eq> Eq for OnceCell<T> {}
    impl<T> From<T> for OnceCell<T> {
        fn from(v: T) -> Self {
            Self::with_value(v)
        }
    }
    struct Busy<'a>(&'a AtomicBool);
    impl Drop for Busy<'_> {
        fn drop(&mut self) {
            self.0.store(false, SeqCst);
        }
    }
    impl<T> OnceCell<T> {
        pub const fn new() -> Self {
            OnceCell { busy: AtomicBool::new(false), full: AtomicBool::new(false), v: UnsafeCell::new(None) }
        }
        pub const fn with_value(v: T) -> Self {
            OnceCell { busy: AtomicBool::new(false), full: AtomicBool::new(true), v: UnsafeCell::new(Some(v)) }
        }
        fn peek(&self) -> Option<&T> {
            if self.full.load(SeqCst) {
                unsafe { (*self.v.get()).as_ref() }
            } else {
                None
            }
        }
        pub fn get(&self) -> Option<&T> {
            point(Op::Go);
            self.peek()
        }
        pub fn get_mut(&mut self) -> Option<&mut T> {
            self.v.get_mut().as_mut()
        }
        pub fn wait(&self) -> &T {
            loop {
                if let Some(x) = self.get() {
                    return x;
                }
            }
        }
        pub fn get_or_init<F: FnOnce() -> T>(&self, f: F) -> &T {
            match self.get_or_try_init(|| Ok::<T, std::convert::Infallible>(f())) {
                Ok(x) => x,
                Err(_) => unreachable!(),
            }
        }
        pub fn get_or_try_init<F: FnOnce() -> Result<T, E>, E>(&self, f: F) -> Result<&T, E> {
            point(Op::Flag(&self.busy));
            if let Some(x) = self.peek() {
                return Ok(x);
            }
            self.busy.store(true, SeqCst);
            let b = Busy(&self.busy);
            let v = f()?;
            unsafe { *self.v.get() = Some(v) };
            self.full.store(true, SeqCst);
            drop(b);
            release_point();
            Ok(self.peek().unwrap())
        }
        pub fn set(&self, v: T) -> Result<(), T> {
            let mut v = Some(v);
            self.get_or_init(|| v.take().unwrap());
            match v {
                None => Ok(()),
                Some(v) => Err(v),
            }
        }
        pub fn try_insert(&self, v: T) -> Result<&T, (&T, T)> {
            let mut v = Some(v);
            let r = self.get_or_init(|| v.take().unwrap());
            match v {
                None => Ok(r),
                Some(v) => Err((r, v)),
            }
        }
        pub fn take(&mut self) -> Option<T> {
            self.full.store(false, SeqCst);
            self.v.get_mut().take()
        }
        pub fn into_inner(self) -> Option<T> {
            self.v.into_inner()
        }
        pub unsafe fn get_unchecked(&self) -> &T {
            self.peek().unwrap()
        }
    }

    pub struct Lazy<T, F = fn() -> T> {
        cell: OnceCell<T>,
        init: Cell<Option<F>>,
    }
    unsafe impl<T, F: Send> Sync for Lazy<T, F> where OnceCell<T>: Sync {}
    impl<T, F> Lazy<T, F> {
        pub const fn new(f: F) -> Lazy<T, F> {
            Lazy { cell: OnceCell::new(), init: Cell::new(Some(f)) }
        }
    }
    impl<T, F: FnOnce() -> T> Lazy<T, F> {
        pub fn force(this: &Lazy<T, F>) -> &T {
            this.cell.get_or_init(|| this.init.take().expect("lazy value poisoned")())
        }
    }
    impl<T, F: FnOnce() -> T> Deref for Lazy<T, F> {
        type Target = T;
        fn deref(&self) -> &T {
            Lazy::force(self)
        }
    }
}
pub mod unsync {
    pub use std::cell::OnceCell;
    pub use std::cell::LazyCell as Lazy;
}
