//! Value types of many sizes and alignments that record their destruction.
use crate::{dropped, fresh, NEW};

pub trait El: Sized + 'static {
    const ZST: bool = core::mem::size_of::<Self>() == 0;
    /// Make a value without logging its creation.
    fn with_id(id: i64) -> Self;
    fn id(&self) -> i64;
    /// A fresh value, logged as created.
    fn mk() -> Self {
        let id = fresh();
        let id = if Self::ZST { 0 } else { id };
        NEW.with(|n| n.borrow_mut().push(id));
        Self::with_id(id)
    }
    /// Consume without running the destructor.
    fn eat(self) -> i64 {
        let id = self.id();
        core::mem::forget(self);
        id
    }
}

macro_rules! el {
    ($name:ident, $repr:meta, $int:ty, $n:expr) => {
        #[$repr]
        pub struct $name([$int; $n]);
        impl El for $name {
            fn with_id(id: i64) -> Self {
                let mut a = [0 as $int; $n];
                for (i, w) in a.iter_mut().enumerate() {
                    *w = (id as $int).wrapping_add((i as $int).wrapping_mul(37));
                }
                $name(a)
            }
            fn id(&self) -> i64 {
                let a = unsafe { core::ptr::read_volatile(&self.0) };
                let id = a[0];
                for (i, w) in a.iter().enumerate() {
                    if *w != id.wrapping_add((i as $int).wrapping_mul(37)) {
                        return -9; // torn
                    }
                }
                if id as u64 > 100_000 {
                    return -8; // garbage
                }
                id as i64
            }
        }
        impl Drop for $name {
            fn drop(&mut self) {
                dropped(self.id());
                // a later use is visible as an impossible id
                unsafe { core::ptr::write_volatile(&mut self.0, [!0; $n]) };
            }
        }
        impl core::fmt::Debug for $name {
            fn fmt(&self, f: &mut core::fmt::Formatter) -> core::fmt::Result {
                write!(f, "#{}", self.id())
            }
        }
    };
}
macro_rules! zel {
    ($name:ident, $repr:meta) => {
        #[$repr]
        pub struct $name([u64; 0]);
        impl El for $name {
            fn with_id(_: i64) -> Self {
                $name([])
            }
            fn id(&self) -> i64 {
                0
            }
        }
        impl Drop for $name {
            fn drop(&mut self) {
                dropped(0);
            }
        }
        impl core::fmt::Debug for $name {
            fn fmt(&self, f: &mut core::fmt::Formatter) -> core::fmt::Result {
                write!(f, "#0")
            }
        }
    };
}

// The order is that of TySize / TyAlign in specs/Common.tla (1-based there).
el!(T1, repr(C), u8, 1);
el!(T2, repr(C), u32, 1);
el!(T3, repr(C), u64, 1);
el!(T4, repr(C), u64, 3);
#[repr(C)]
pub struct T5;
impl El for T5 {
    fn with_id(_: i64) -> Self {
        T5
    }
    fn id(&self) -> i64 {
        0
    }
}
impl Drop for T5 {
    fn drop(&mut self) {
        dropped(0);
    }
}
impl core::fmt::Debug for T5 {
    fn fmt(&self, f: &mut core::fmt::Formatter) -> core::fmt::Result {
        write!(f, "#0")
    }
}
zel!(T6, repr(align(16)));
el!(T7, repr(align(16)), u64, 4);
el!(T8, repr(C), u16, 1);
el!(T9, repr(align(64)), u64, 8);
el!(T10, repr(C), u8, 3);
el!(T11, repr(C), u64, 2);
el!(T12, repr(C), u64, 6);
el!(T13, repr(C), u64, 40);
el!(T14, repr(align(1024)), u64, 128);

/// Call a generic function with the type of the given 1-based index.
#[macro_export]
macro_rules! with_ty {
    ($idx:expr, $T:ident => $body:expr) => {
        match $idx {
            1 => { type $T = $crate::tys::T1; $body }
            2 => { type $T = $crate::tys::T2; $body }
            3 => { type $T = $crate::tys::T3; $body }
            4 => { type $T = $crate::tys::T4; $body }
            5 => { type $T = $crate::tys::T5; $body }
            6 => { type $T = $crate::tys::T6; $body }
            7 => { type $T = $crate::tys::T7; $body }
            8 => { type $T = $crate::tys::T8; $body }
            9 => { type $T = $crate::tys::T9; $body }
            10 => { type $T = $crate::tys::T10; $body }
            11 => { type $T = $crate::tys::T11; $body }
            13 => { type $T = $crate::tys::T13; $body }
            14 => { type $T = $crate::tys::T14; $body }
            other => panic!("no type {}", other),
        }
    };
}

/// Aligned scratch memory.
#[repr(C, align(1024))]
pub struct Arena(pub [core::mem::MaybeUninit<u8>; 8192]);
impl Arena {
    pub fn new() -> Box<Arena> {
        Box::new(Arena([core::mem::MaybeUninit::new(0xA5); 8192]))
    }
    pub fn base(&self) -> usize {
        self.0.as_ptr() as usize
    }
}
