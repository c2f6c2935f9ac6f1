//! Driver for without_alloc::{Uninit, UninitView}. cfg = [offset of the region, length]
use std::alloc::Layout;
use std::mem::{align_of, size_of, MaybeUninit};
use std::ptr::NonNull;

use vh::*;
use unsize_reg::{CoerceUnsize, Coercion};
use without_alloc::uninit::{Uninit, UninitView};

/// An unsized type.
trait Probe {
    fn probe(&self) -> i64;
}
impl<T: El> Probe for T {
    fn probe(&self) -> i64 {
        self.id()
    }
}

thread_local! {
    /// length of the last slice of `MaybeUninit`s
    static MU: std::cell::Cell<i64> = const { std::cell::Cell::new(0) };
}

type B = Box<dyn Hd>;
/// A handle of any type.
trait Hd {
    fn addr(&self) -> usize;
    fn len(&self) -> usize;
    fn cap(&self) -> Option<usize> {
        None
    }
    /// pointer and length agree with each other
    fn fine(&self) -> bool;
    /// an empty slice describes no element
    fn nothing(&self) -> bool {
        false
    }
    fn id(&self) -> Option<i64> {
        None
    }
    fn byte(&mut self, _: usize) -> Option<B> {
        panic!("script error")
    }
    fn layout(&mut self, _: Layout) -> Option<B> {
        panic!("script error")
    }
    fn scast(&mut self, _: i64) -> Option<B> {
        panic!("script error")
    }
    fn sslice(&mut self, _: i64) -> Option<B> {
        panic!("script error")
    }
    fn cast(self: Box<Self>, _: i64) -> Result<B, B> {
        panic!("script error")
    }
    fn cslice(self: Box<Self>, _: i64) -> Result<B, B> {
        panic!("script error")
    }
    fn tofit(&mut self) -> B {
        panic!("script error")
    }
    fn at(&mut self, _: usize) -> Option<B> {
        panic!("script error")
    }
    fn shrink(&mut self) -> B {
        panic!("script error")
    }
    fn first(&mut self) -> Option<B> {
        panic!("script error")
    }
    fn last(&mut self) -> Option<B> {
        panic!("script error")
    }
    fn mem(self: Box<Self>) -> B {
        panic!("script error")
    }
    fn mu(self: Box<Self>, _: bool) -> B {
        panic!("script error")
    }
    fn into(self: Box<Self>) -> B {
        panic!("script error")
    }
    /// through a handle to an unsized type
    fn dynamic(self: Box<Self>) -> B {
        panic!("script error")
    }
    fn borrow(&mut self) -> B {
        panic!("script error")
    }
    fn view(&self) -> B {
        panic!("script error")
    }
    fn fits(&self, _: Layout) -> bool {
        panic!("script error")
    }
    fn init(self: Box<Self>, _: i64) -> B {
        panic!("script error")
    }
}

struct UT<T: 'static>(Uninit<'static, T>);
struct US<T: 'static>(Uninit<'static, [T]>);
struct VT<T: 'static>(UninitView<'static, T>);
struct VS<T: 'static>(UninitView<'static, [T]>);
/// An initialized value.
struct Val<T: 'static>(&'static mut T);

fn opt<H: Hd + 'static>(h: Option<H>) -> Option<B> {
    h.map(|h| Box::new(h) as B)
}
fn res<H: Hd + 'static, E: Hd + 'static>(h: Result<H, E>) -> Result<B, B> {
    match h {
        Ok(h) => Ok(Box::new(h)),
        Err(e) => Err(Box::new(e)),
    }
}
/// The borrow is followed by the specification.
unsafe fn forever<A, B>(a: A) -> B {
    let b = std::mem::transmute_copy(&a);
    std::mem::forget(a);
    b
}

macro_rules! common {
    () => {
        fn addr(&self) -> usize {
            self.0.as_ptr() as *const u8 as usize
        }
        fn len(&self) -> usize {
            self.0.size()
        }
        fn fits(&self, l: Layout) -> bool {
            self.0.fits(l)
        }
    };
}
macro_rules! typed {
    ($UT:ident, $US:ident) => {
        fn fine(&self) -> bool {
            self.0.as_non_null().as_ptr() as usize == self.addr() && self.0.byte_capacity() == self.len() && self.addr() % align_of::<T>() == 0 && self.len() >= size_of::<T>()
        }
        fn byte(&mut self, n: usize) -> Option<B> {
            opt(self.0.split_at_byte(n).map($UT))
        }
        fn tofit(&mut self) -> B {
            Box::new($UT(self.0.split_to_fit()))
        }
        fn cast(self: Box<Self>, t: i64) -> Result<B, B> {
            if t == 0 {
                return res(self.0.cast::<()>().map($UT).map_err($UT));
            }
            with_ty!(t, U => res(self.0.cast::<U>().map($UT).map_err($UT)))
        }
        fn cslice(self: Box<Self>, t: i64) -> Result<B, B> {
            with_ty!(t, U => res(self.0.cast_slice::<U>().map($US).map_err($UT)))
        }
        fn layout(&mut self, l: Layout) -> Option<B> {
            // only for untyped memory
            assert!(size_of::<T>() == 0);
            let v: &mut $UT<()> = unsafe { &mut *(self as *mut Self as *mut $UT<()>) };
            opt(v.0.split_layout(l).map($UT))
        }
        fn scast(&mut self, t: i64) -> Option<B> {
            assert!(size_of::<T>() == 0);
            let v: &mut $UT<()> = unsafe { &mut *(self as *mut Self as *mut $UT<()>) };
            with_ty!(t, U => opt(v.0.split_cast::<U>().map($UT)))
        }
        fn sslice(&mut self, t: i64) -> Option<B> {
            assert!(size_of::<T>() == 0);
            let v: &mut $UT<()> = unsafe { &mut *(self as *mut Self as *mut $UT<()>) };
            with_ty!(t, U => opt(v.0.split_slice::<U>().map($US)))
        }
    };
}
macro_rules! slice {
    ($UT:ident, $US:ident) => {
        fn cap(&self) -> Option<usize> {
            Some(self.0.capacity())
        }
        fn nothing(&self) -> bool {
            let l = self.0.as_non_null().as_ptr() as *const [T];
            size_of::<T>() == 0 || l.len() == 0
        }
        fn fine(&self) -> bool {
            // the slice the pointer describes lies in the part
            let l = self.0.as_non_null().as_ptr() as *const [T];
            l.len() == self.0.capacity() && self.0.byte_capacity() == self.len() && self.0.as_begin_ptr() as usize == self.addr() && self.addr() % align_of::<T>() == 0
        }
        fn at(&mut self, n: usize) -> Option<B> {
            opt(self.0.split_at(n).map($US))
        }
        fn shrink(&mut self) -> B {
            Box::new($UT(self.0.shrink_to_fit()))
        }
        fn first(&mut self) -> Option<B> {
            opt(self.0.split_first().map($UT))
        }
        fn last(&mut self) -> Option<B> {
            opt(self.0.split_last().map($UT))
        }
    };
}
trait Init: Sized {
    fn init(u: Uninit<'static, Self>, how: i64) -> B;
    fn dynamic(_: Uninit<'static, Self>) -> B {
        panic!("script error")
    }
    fn dynview(_: UninitView<'static, Self>) -> B {
        panic!("script error")
    }
}
impl Init for () {
    fn init(_: Uninit<'static, ()>, _: i64) -> B {
        panic!("script error")
    }
}
macro_rules! init {
    ($($T:ident)*) => {$(
        impl Init for vh::tys::$T {
            fn dynamic(u: Uninit<'static, Self>) -> B {
                let n = u.byte_capacity();
                let d: Uninit<'static, dyn Probe> = u.unsize(Coercion!(to dyn Probe));
                assert!(d.byte_capacity() == n && d.size() == n);
                Box::new(UT(d.as_memory()))
            }
            fn dynview(u: UninitView<'static, Self>) -> B {
                let n = u.byte_capacity();
                let d: UninitView<'static, dyn Probe> = u.unsize(Coercion!(to dyn Probe));
                assert!(d.byte_capacity() == n && d.size() == n);
                Box::new(VT(d.cast::<()>().ok().unwrap()))
            }
            fn init(mut u: Uninit<'static, Self>, how: i64) -> B {
                let v = Self::mk();
                let id = v.id();
                if how == 0 {
                    return Box::new(Val(u.init(v)));
                }
                // through a borrow, the handle then knows where the value is
                let p = u.borrow_mut().init(v) as *mut Self;
                unsafe {
                    assert!(u.as_ref() as *const Self == p && u.as_mut() as *mut Self == p);
                    let w: UninitView<'_, Self> = u.borrow();
                    assert!(w.as_ref() as *const Self == p && w.into_ref() as *const Self == p);
                    match how {
                        4 => {
                            let n = u.byte_capacity();
                            let mut d: Uninit<'static, dyn Probe> = u.unsize(Coercion!(to dyn Probe));
                            assert!(d.byte_capacity() == n && d.size() == n);
                            assert!(d.as_ref().probe() == id && d.as_mut().probe() == id);
                            let w: UninitView<'_, dyn Probe> = d.borrow();
                            assert!(w.as_ref().probe() == id && w.clone().into_ref().probe() == id);
                            assert!(std::mem::size_of_val(d.as_ref()) == size_of::<Self>());
                            assert_eq!(d.into_mut() as *mut dyn Probe as *mut Self, p);
                            Box::new(Val(&mut *p))
                        }
                        1 => Box::new(Val(u.into_mut())),
                        2 => {
                            assert!(u.into_ref() as *const Self == p);
                            Box::new(Val(&mut *p))
                        }
                        _ => {
                            let copy = std::mem::ManuallyDrop::new(u.read());
                            assert_eq!(copy.id(), id);
                            Box::new(Val(u.into_mut()))
                        }
                    }
                }
            }
        }
    )*};
}
init!(T1 T2 T3 T4 T5 T6 T7 T8 T9 T10 T11 T13 T14);
impl<T: Init + 'static> Hd for UT<T> {
    common!();
    typed!(UT, US);
    fn mem(self: Box<Self>) -> B {
        Box::new(UT(self.0.as_memory()))
    }
    fn mu(self: Box<Self>, from: bool) -> B {
        let m: &'static mut MaybeUninit<T> = self.0.into_maybe_uninit();
        Box::new(UT(if from { m.into() } else { Uninit::from_maybe_uninit(m) }))
    }
    fn borrow(&mut self) -> B {
        Box::new(UT::<T>(unsafe { forever(self.0.borrow_mut()) }))
    }
    fn view(&self) -> B {
        Box::new(VT::<T>(unsafe { forever(self.0.borrow()) }))
    }
    fn into(self: Box<Self>) -> B {
        Box::new(VT(UninitView::from(self.0)))
    }
    fn init(self: Box<Self>, how: i64) -> B {
        T::init(self.0, how)
    }
    fn dynamic(self: Box<Self>) -> B {
        T::dynamic(self.0)
    }
}
impl<T: Init + 'static> Hd for US<T> {
    common!();
    slice!(UT, US);
    fn mem(self: Box<Self>) -> B {
        Box::new(UT(self.0.as_memory()))
    }
    fn mu(self: Box<Self>, from: bool) -> B {
        let m: &'static mut [MaybeUninit<T>] = self.0.into_maybe_uninit_slice();
        MU.set(m.len() as i64);
        Box::new(US(if from { m.into() } else { Uninit::from_maybe_uninit_slice(m) }))
    }
    fn borrow(&mut self) -> B {
        Box::new(US::<T>(unsafe { forever(self.0.borrow_mut()) }))
    }
    fn view(&self) -> B {
        Box::new(VS::<T>(unsafe { forever(self.0.borrow()) }))
    }
}
impl<T: Init + 'static> Hd for VT<T> {
    common!();
    typed!(VT, VS);
    fn mu(self: Box<Self>, from: bool) -> B {
        let m: &'static MaybeUninit<T> = self.0.into_maybe_uninit();
        Box::new(VT(if from { m.into() } else { UninitView::from_maybe_uninit(m) }))
    }
    fn view(&self) -> B {
        // views are copied, too
        let copy: UninitView<'static, T> = Clone::clone(&self.0);
        assert!(copy.as_ptr() == self.0.as_ptr() && copy.byte_capacity() == self.0.byte_capacity());
        Box::new(VT::<T>(unsafe { forever(copy.borrow()) }))
    }
    fn dynamic(self: Box<Self>) -> B {
        T::dynview(self.0)
    }
}
impl<T: Init + 'static> Hd for VS<T> {
    common!();
    slice!(VT, VS);
    fn mu(self: Box<Self>, from: bool) -> B {
        let m: &'static [MaybeUninit<T>] = self.0.into_maybe_uninit_slice();
        MU.set(m.len() as i64);
        Box::new(VS(if from { m.into() } else { UninitView::from_maybe_uninit_slice(m) }))
    }
    fn view(&self) -> B {
        Box::new(VS::<T>(unsafe { forever(self.0.borrow()) }))
    }
}
impl<T: El> Hd for Val<T> {
    fn addr(&self) -> usize {
        &*self.0 as *const T as usize
    }
    fn len(&self) -> usize {
        size_of::<T>()
    }
    fn fine(&self) -> bool {
        self.addr() % align_of::<T>() == 0
    }
    fn id(&self) -> Option<i64> {
        Some(self.0.id())
    }
}

fn num(n: i64) -> usize {
    match n {
        -1 => usize::MAX,
        -2 => usize::MAX / 2 + 1,
        -3 => isize::MAX as usize - 63,
        n => n as usize,
    }
}

fn run(s: &Script, log: &mut Log) {
    const START: usize = 192;
    let (off, len) = (s.cfg[0] as usize, s.cfg[1] as usize);
    let span = (START + off + len + 200).next_multiple_of(1024);
    // the address of the region modulo 8192 is its offset
    let arena = vec![MaybeUninit::new(0xA5u8); span + 16384];
    let base = (arena.as_ptr() as usize).next_multiple_of(8192) + 8192 - START;
    let root = unsafe { Uninit::from_memory(NonNull::new((base + START + off) as *mut u8).unwrap().cast(), len) };
    let mut hs: Vec<Option<B>> = vec![Some(Box::new(UT(root)))];
    // what is where: handles borrowed from others, as told by the specification's rules
    let mut from: Vec<usize> = vec![usize::MAX];
    let mut writes: Vec<bool> = vec![true];
    let mut slice: Vec<char> = vec!['0'];
    let bytes = |b: usize| -> Vec<u8> { (0..span).map(|i| unsafe { ((b + i) as *const u8).read_volatile() }).collect() };
    let mut shadow = bytes(base);
    let mut ops = s.ops.clone();
    ops.push(Op { a: "end".into(), x: 0, y: 0, z: 0 });
    for op in &ops {
        let mut r = "ok";
        let i = (op.x - 1) as usize;
        let kids: Vec<usize> = (0..hs.len()).filter(|j| hs[*j].is_some() && from[*j] == i).collect();
        let live = i < hs.len() && hs[i].is_some();
        let ready = live && kids.is_empty();
        let readable = live && kids.iter().all(|j| !writes[*j]);
        // '0' untyped, 't' typed, 'z' typed without size and not in the region, 's' slice, 'e' empty slice, 'v' value
        let k = if live { slice[i] } else { '-' };
        let w = live && writes[i];
        let ok = match op.a.as_str() {
            "byte" | "cast" | "cslice" | "tofit" => ready && "0t".contains(k),
            "layout" | "scast" | "sslice" => ready && k == '0',
            "at" | "first" | "last" | "shrink" => ready && k == 's',
            "into" => ready && w && "0t".contains(k),
            "mem" | "borrow" => ready && w && "0ts".contains(k),
            "dyn" => ready && k == 't',
            "mu" => ready && "0ts".contains(k),
            "view" | "fits" => readable && "0ts".contains(k),
            "init" => ready && w && "tz".contains(k),
            "drop" => ready,
            _ => true,
        };
        let mut g = Got { res: Some(()), d: vec![], n: vec![] };
        // parts of the arena that may be different now
        let mut may = 0..0;
        let mut m: Vec<i64> = vec![];
        if !ok {
            r = "skip";
        } else {
            g = call(0, || {
                let mut new: Option<(B, char)> = None;
                let (mut nf, mut nw) = if live { (from[i], writes[i]) } else { (usize::MAX, op.y == 0) };
                let kind = |t: i64| if t == 0 { '0' } else { 't' };
                match op.a.as_str() {
                    "byte" => new = hs[i].as_mut().unwrap().byte(num(op.y)).map(|h| (h, '0')),
                    "layout" => match Layout::from_size_align(num(op.y), op.z as usize) {
                        Ok(l) => new = hs[i].as_mut().unwrap().layout(l).map(|h| (h, '0')),
                        Err(_) => {}
                    },
                    "scast" => new = hs[i].as_mut().unwrap().scast(op.y).map(|h| (h, 't')),
                    "sslice" => new = hs[i].as_mut().unwrap().sslice(op.y).map(|h| (h, 's')),
                    "tofit" => new = Some((hs[i].as_mut().unwrap().tofit(), '0')),
                    "at" => new = hs[i].as_mut().unwrap().at(num(op.y)).map(|h| (h, 's')),
                    "first" => new = hs[i].as_mut().unwrap().first().map(|h| (h, 't')),
                    "last" => new = hs[i].as_mut().unwrap().last().map(|h| (h, 't')),
                    "shrink" => new = Some((hs[i].as_mut().unwrap().shrink(), '0')),
                    "cast" | "cslice" => {
                        let h = hs[i].take().unwrap();
                        let res = if op.a == "cast" { h.cast(op.y) } else { h.cslice(op.y) };
                        hs[i] = Some(match res {
                            Ok(h) => {
                                slice[i] = if op.a == "cast" { kind(op.y) } else { 's' };
                                h
                            }
                            Err(h) => {
                                r = "err";
                                h
                            }
                        });
                        return;
                    }
                    "mem" => {
                        let h = hs[i].take().unwrap();
                        hs[i] = Some(h.mem());
                        slice[i] = '0';
                        return;
                    }
                    "into" => {
                        let h = hs[i].take().unwrap();
                        hs[i] = Some(h.into());
                        writes[i] = false;
                        return;
                    }
                    "dyn" => {
                        let h = hs[i].take().unwrap();
                        hs[i] = Some(h.dynamic());
                        slice[i] = '0';
                        return;
                    }
                    "mu" => {
                        let h = hs[i].take().unwrap();
                        hs[i] = Some(h.mu(op.y == 1));
                        if k == 's' {
                            m = vec![MU.get()];
                        }
                        return;
                    }
                    "borrow" => {
                        new = Some((hs[i].as_mut().unwrap().borrow(), k));
                        (nf, nw) = (i, true);
                    }
                    "view" => {
                        new = Some((hs[i].as_ref().unwrap().view(), k));
                        if w {
                            (nf, nw) = (i, false);
                        }
                    }
                    "fits" => {
                        let y = match Layout::from_size_align(num(op.y), op.z as usize) {
                            Ok(l) => hs[i].as_ref().unwrap().fits(l),
                            Err(_) => false,
                        };
                        r = if y { "yes" } else { "no" };
                        return;
                    }
                    "init" => {
                        let h = hs[i].take().unwrap();
                        let h = h.init(op.y);
                        if h.addr() >= base && h.addr() < base + span {
                            may = h.addr() - base..h.addr() - base + h.len();
                        }
                        hs[i] = Some(h);
                        slice[i] = 'v';
                        return;
                    }
                    "drop" => {
                        hs[i] = None;
                        return;
                    }
                    "invent" => {
                        let h: B = if op.x == 0 {
                            if op.y == 0 { Box::new(UT(Uninit::<()>::invent_for_zst())) } else { Box::new(VT(UninitView::<()>::invent_for_zst())) }
                        } else {
                            with_ty!(op.x, T => if op.y == 0 { Box::new(UT(Uninit::<T>::invent_for_zst())) as B } else { Box::new(VT(UninitView::<T>::invent_for_zst())) })
                        };
                        (nf, nw) = (usize::MAX, op.y == 0);
                        new = Some((h, if op.x == 0 { 'y' } else { 'z' }));
                    }
                    "empty" => {
                        let h: B = with_ty!(op.x, T => if op.z == 1 { if op.y == 0 { Box::new(US::<T>(Default::default())) as B } else { Box::new(VS::<T>(Default::default())) } } else if op.y == 0 { Box::new(US(Uninit::<[T]>::empty())) as B } else { Box::new(VS(UninitView::<[T]>::empty())) });
                        (nf, nw) = (usize::MAX, op.y == 0);
                        new = Some((h, 'e'));
                    }
                    "end" => return,
                    o => panic!("script error {o}"),
                }
                match new {
                    Some((h, k)) => {
                        hs.push(Some(h));
                        slice.push(k);
                        from.push(nf);
                        writes.push(nw);
                    }
                    None => r = "none",
                }
            });
        }
        if g.res.is_none() {
            r = "panic";
        }
        // what can be seen
        let now = bytes(base);
        let mut good = (0..span).all(|i| may.contains(&i) || now[i] == shadow[i]);
        shadow = now;
        let (mut v, mut c) = (vec![0], vec![]);
        for (h, k) in hs.iter().zip(&slice) {
            let Some(h) = h else { continue };
            let inside = h.addr() >= base && h.addr() < base + span;
            let s = if inside { h.addr() as i64 - (base + START) as i64 } else { -1 };
            // slice pointers of empty slices of zero sized elements may have any length
            good &= if *k == 'e' { h.len() == 0 && h.nothing() } else { h.fine() };
            good &= inside || h.len() == 0;
            let cap = match h.cap() {
                Some(c) if *k == 's' => {
                    if c == usize::MAX {
                        -1
                    } else {
                        c as i64
                    }
                }
                _ => -2,
            };
            v.extend([s, h.len() as i64, cap]);
            c.extend(h.id());
        }
        v[0] = good as i64;
        log.event(op, &Obs { r, v, d: g.d, c, n: g.n, m, k: 1 });
    }
}

fn main() {
    drive(run);
}
