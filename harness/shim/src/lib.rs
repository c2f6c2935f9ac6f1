//! Atomics with scheduling points. Outside of a controlled thread they behave as the plain ones.
pub use core::sync::atomic::{compiler_fence, Ordering};
use std::cell::RefCell;
use std::sync::Arc;

/// Implemented by the interleaving explorer; called by a controlled thread.
pub trait Sched: Send + Sync {
    /// Block until it is this thread's turn to execute its next atomic step.
    fn point(&self, tid: usize);
    /// Whether a weak compare exchange that would succeed shall fail spuriously.
    fn spurious(&self, tid: usize) -> bool;
}

thread_local! {
    static CUR: RefCell<Option<(Arc<dyn Sched>, usize)>> = const { RefCell::new(None) };
}

pub fn enter(s: Arc<dyn Sched>, tid: usize) {
    CUR.with(|c| *c.borrow_mut() = Some((s, tid)));
}
pub fn leave() {
    CUR.with(|c| *c.borrow_mut() = None);
}
pub fn point() {
    let cur = CUR.with(|c| c.borrow().clone());
    if let Some((s, t)) = cur {
        s.point(t)
    }
}
fn spurious() -> bool {
    let cur = CUR.with(|c| c.borrow().clone());
    cur.map_or(false, |(s, t)| s.spurious(t))
}
pub fn fence(o: Ordering) {
    point();
    core::sync::atomic::fence(o)
}

macro_rules! common {
    ($name:ident, $t:ty) => {
        #[repr(transparent)]
        #[derive(Default)]
        pub struct $name(core::sync::atomic::$name);
        impl core::fmt::Debug for $name {
            fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
                self.0.fmt(f)
            }
        }
        impl From<$t> for $name {
            fn from(v: $t) -> Self {
                Self::new(v)
            }
        }
        #[allow(deprecated)]
        impl $name {
            pub const fn new(v: $t) -> Self {
                $name(core::sync::atomic::$name::new(v))
            }
            pub fn get_mut(&mut self) -> &mut $t {
                self.0.get_mut()
            }
            pub fn into_inner(self) -> $t {
                self.0.into_inner()
            }
            pub fn as_ptr(&self) -> *mut $t {
                self.0.as_ptr()
            }
            pub fn load(&self, o: Ordering) -> $t {
                point();
                self.0.load(o)
            }
            pub fn store(&self, v: $t, o: Ordering) {
                point();
                self.0.store(v, o)
            }
            pub fn swap(&self, v: $t, o: Ordering) -> $t {
                point();
                self.0.swap(v, o)
            }
            pub fn compare_and_swap(&self, c: $t, n: $t, o: Ordering) -> $t {
                point();
                self.0.compare_and_swap(c, n, o)
            }
            pub fn compare_exchange(&self, c: $t, n: $t, s: Ordering, f: Ordering) -> Result<$t, $t> {
                point();
                self.0.compare_exchange(c, n, s, f)
            }
            pub fn compare_exchange_weak(&self, c: $t, n: $t, s: Ordering, f: Ordering) -> Result<$t, $t> {
                point();
                let now = self.0.load(Ordering::SeqCst);
                if now == c && spurious() {
                    return Err(now);
                }
                self.0.compare_exchange(c, n, s, f)
            }
            pub fn fetch_update<F: FnMut($t) -> Option<$t>>(&self, s: Ordering, l: Ordering, mut f: F) -> Result<$t, $t> {
                let mut prev = self.load(l);
                while let Some(next) = f(prev) {
                    match self.compare_exchange_weak(prev, next, s, l) {
                        x @ Ok(_) => return x,
                        Err(p) => prev = p,
                    }
                }
                Err(prev)
            }
            pub fn try_update<F: FnMut($t) -> Option<$t>>(&self, s: Ordering, l: Ordering, f: F) -> Result<$t, $t> {
                self.fetch_update(s, l, f)
            }
            pub fn update<F: FnMut($t) -> $t>(&self, s: Ordering, l: Ordering, mut f: F) -> $t {
                self.fetch_update(s, l, |x| Some(f(x))).unwrap()
            }
        }
    };
}
macro_rules! fetch {
    ($name:ident, $t:ty: $($m:ident)*) => {
        impl $name { $(
            pub fn $m(&self, v: $t, o: Ordering) -> $t { point(); self.0.$m(v, o) }
        )* }
    };
}
macro_rules! int {
    ($($name:ident $t:ty;)*) => { $(
        common!($name, $t);
        fetch!($name, $t: fetch_add fetch_sub fetch_and fetch_nand fetch_or fetch_xor fetch_max fetch_min);
    )* };
}
int! { AtomicUsize usize; AtomicIsize isize; AtomicU8 u8; AtomicI8 i8; AtomicU16 u16; AtomicI16 i16;
       AtomicU32 u32; AtomicI32 i32; AtomicU64 u64; AtomicI64 i64; }
common!(AtomicBool, bool);
fetch!(AtomicBool, bool: fetch_and fetch_nand fetch_or fetch_xor);
