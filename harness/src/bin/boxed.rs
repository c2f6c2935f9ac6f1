//! Driver for without_alloc::Box. cfg = [first type, second type]
use std::any::TypeId;
use std::mem::align_of;
use std::ptr::NonNull;

use unsize_reg::{CoerceUnsize, Coercion};
use vh::*;
use without_alloc::boxed::Box as WBox;
use without_alloc::Uninit;

/// What boxes contain: one element or three of them, or an unsized view of those.
trait Tgt: 'static {
    fn ids(&self) -> Vec<i64>;
    fn fine(&self, _: TypeId) -> bool;
    fn replace(&mut self) -> Vec<i64>;
    fn unsize(_: WBox<'static, Self>, _: TypeId) -> Box<dyn Hd> {
        panic!("script error")
    }
    fn take(_: WBox<'static, Self>) -> (Vec<i64>, Uninit<'static, ()>) {
        panic!("script error")
    }
    fn read(_: Uninit<'static, Self>) -> (Vec<i64>, Uninit<'static, ()>) {
        panic!("script error")
    }
}
trait Val: Tgt + Sized {
    fn mk() -> Self;
    fn eat(self) -> Vec<i64>;
    fn ty() -> TypeId;
}
macro_rules! sized {
    () => {
        fn take(b: WBox<'static, Self>) -> (Vec<i64>, Uninit<'static, ()>) {
            let (v, u) = WBox::take(b);
            (v.eat(), u.as_memory())
        }
        fn read(u: Uninit<'static, Self>) -> (Vec<i64>, Uninit<'static, ()>) {
            let v = unsafe { u.read() };
            (v.eat(), u.as_memory())
        }
    };
}
#[repr(transparent)]
struct One<T>(T);
impl<T: El> Val for One<T> {
    fn mk() -> Self {
        One(T::mk())
    }
    fn eat(self) -> Vec<i64> {
        vec![self.0.eat()]
    }
    fn ty() -> TypeId {
        TypeId::of::<T>()
    }
}
impl<T: El> Tgt for One<T> {
    fn ids(&self) -> Vec<i64> {
        vec![self.0.id()]
    }
    fn fine(&self, _: TypeId) -> bool {
        self as *const Self as usize % align_of::<T>() == 0
    }
    fn replace(&mut self) -> Vec<i64> {
        std::mem::replace(self, Val::mk()).eat()
    }
    fn unsize(b: WBox<'static, Self>, t: TypeId) -> Box<dyn Hd> {
        let d: WBox<'static, dyn Tr> = b.unsize(unsafe { Coercion::new(|p: *const Self| p as *const dyn Tr) });
        Box::new(Bx(d, t))
    }
    sized!();
}
impl<T: El> Val for [T; 3] {
    fn mk() -> Self {
        [T::mk(), T::mk(), T::mk()]
    }
    fn eat(self) -> Vec<i64> {
        self.into_iter().map(|e| e.eat()).collect()
    }
    fn ty() -> TypeId {
        TypeId::of::<T>()
    }
}
impl<T: El> Tgt for [T; 3] {
    fn ids(&self) -> Vec<i64> {
        self.iter().map(|e| e.id()).collect()
    }
    fn fine(&self, _: TypeId) -> bool {
        self as *const Self as usize % align_of::<T>() == 0
    }
    fn replace(&mut self) -> Vec<i64> {
        std::mem::replace(self, Val::mk()).eat()
    }
    fn unsize(b: WBox<'static, Self>, t: TypeId) -> Box<dyn Hd> {
        let d: WBox<'static, [T]> = b.unsize(Coercion::to_slice());
        Box::new(Bx(d, t))
    }
    sized!();
}
trait Tr {
    fn id(&self) -> i64;
    fn swap(&mut self) -> i64;
    fn ty(&self) -> TypeId;
}
impl<T: El> Tr for One<T> {
    fn id(&self) -> i64 {
        self.0.id()
    }
    fn swap(&mut self) -> i64 {
        std::mem::replace(&mut self.0, T::mk()).eat()
    }
    fn ty(&self) -> TypeId {
        TypeId::of::<T>()
    }
}
impl Tgt for dyn Tr {
    fn ids(&self) -> Vec<i64> {
        vec![self.id()]
    }
    fn fine(&self, t: TypeId) -> bool {
        self.ty() == t
    }
    fn replace(&mut self) -> Vec<i64> {
        vec![self.swap()]
    }
}
impl<T: El> Tgt for [T] {
    fn ids(&self) -> Vec<i64> {
        self.iter().map(|e| e.id()).collect()
    }
    fn fine(&self, _: TypeId) -> bool {
        self.len() == 3
    }
    fn replace(&mut self) -> Vec<i64> {
        self.iter_mut().map(|e| std::mem::replace(e, T::mk()).eat()).collect()
    }
}

/// A handle of any kind.
trait Hd {
    fn ids(&self) -> Vec<i64>;
    fn place(&self) -> usize;
    /// length of the region, if the handle tells it
    fn len(&self) -> Option<usize> {
        None
    }
    fn fine(&self) -> bool;
    fn unsize(self: Box<Self>) -> Box<dyn Hd> {
        panic!("script error")
    }
    fn take(self: Box<Self>) -> (Vec<i64>, Uninit<'static, ()>) {
        panic!("script error")
    }
    fn turn(self: Box<Self>, _: Kind) -> Box<dyn Hd> {
        panic!("script error")
    }
    fn rawmem(self: Box<Self>) -> Uninit<'static, ()> {
        panic!("script error")
    }
    fn replace(&mut self) -> Vec<i64> {
        panic!("script error")
    }
}
#[derive(Clone, Copy, PartialEq)]
enum Kind {
    Mem,
    Box,
    Raw,
    Leak,
}
struct Bx<V: Tgt + ?Sized>(WBox<'static, V>, TypeId);
struct Raw<V: Tgt + ?Sized>(Uninit<'static, V>, TypeId);
struct Leak<V: Tgt + ?Sized>(&'static mut V, TypeId);
macro_rules! common {
    (|$s:ident| $get:expr) => {
        fn ids(&self) -> Vec<i64> {
            let $s = self;
            $get.ids()
        }
        fn place(&self) -> usize {
            let $s = self;
            $get as *const V as *const u8 as usize
        }
        fn fine(&self) -> bool {
            let $s = self;
            $get.fine(self.1)
        }
    };
}
impl<V: Tgt + ?Sized> Hd for Bx<V> {
    common!(|s| &*s.0);
    fn unsize(self: Box<Self>) -> Box<dyn Hd> {
        V::unsize(self.0, self.1)
    }
    fn take(self: Box<Self>) -> (Vec<i64>, Uninit<'static, ()>) {
        V::take(self.0)
    }
    fn turn(self: Box<Self>, k: Kind) -> Box<dyn Hd> {
        match k {
            Kind::Raw => Box::new(Raw(WBox::into_raw(self.0), self.1)),
            _ => Box::new(Leak(WBox::leak(self.0), self.1)),
        }
    }
    fn replace(&mut self) -> Vec<i64> {
        (*self.0).replace()
    }
}
impl<V: Tgt + ?Sized> Hd for Raw<V> {
    common!(|s| (unsafe { s.0.as_ref() }));
    fn len(&self) -> Option<usize> {
        Some(self.0.size())
    }
    fn take(self: Box<Self>) -> (Vec<i64>, Uninit<'static, ()>) {
        V::read(self.0)
    }
    fn turn(self: Box<Self>, k: Kind) -> Box<dyn Hd> {
        match k {
            Kind::Box => Box::new(Bx(unsafe { WBox::from_raw(self.0) }, self.1)),
            _ => Box::new(Leak(unsafe { self.0.into_mut() }, self.1)),
        }
    }
    fn rawmem(self: Box<Self>) -> Uninit<'static, ()> {
        self.0.as_memory()
    }
}
impl<V: Tgt + ?Sized> Hd for Leak<V> {
    common!(|s| &*s.0);
    fn replace(&mut self) -> Vec<i64> {
        self.0.replace()
    }
}

fn make<V: Val>(u: Uninit<'static, ()>, how: &str) -> Result<Box<dyn Hd>, Uninit<'static, ()>> {
    let u = u.cast::<V>()?;
    Ok(match how {
        "new" => Box::new(Bx(WBox::new(V::mk(), u), V::ty())),
        "intobox" => Box::new(Bx(u.into_box(V::mk()), V::ty())),
        _ => Box::new(Leak(u.init(V::mk()), V::ty())),
    })
}

enum Slot {
    Gone,
    Mem(Uninit<'static, ()>),
    Hd(Kind, bool, Box<dyn Hd>),
}
struct Region {
    _arena: Box<Arena>,
    base: usize,
    size: usize,
}
impl Region {
    fn guards(&self) -> bool {
        let a = self._arena.base();
        (self.base - 256..self.base).chain(self.base + self.size..(self.base + self.size + 512).min(a + 8192)).all(|p| unsafe { (p as *const u8).read_volatile() } == 0xA5)
    }
}

fn run(s: &Script, log: &mut Log) {
    let mut regs: Vec<Region> = vec![];
    let mut hs: Vec<Slot> = vec![];
    let mut ops = s.ops.clone();
    ops.push(Op { a: "end".into(), x: 0, y: 0, z: 0 });
    for op in &ops {
        let mut r = "ok";
        let mut m = vec![];
        let i = (op.x - 1) as usize;
        let (kind, uns) = match hs.get(i) {
            Some(Slot::Mem(_)) => (Some(Kind::Mem), false),
            Some(Slot::Hd(k, u, _)) => (Some(*k), *u),
            _ => (None, false),
        };
        let fits = match op.a.as_str() {
            "new" | "init" | "intobox" => kind == Some(Kind::Mem),
            "unsize" | "take" => kind == Some(Kind::Box) && !uns,
            "rawread" => kind == Some(Kind::Raw) && !uns,
            "rawmem" | "fromraw" | "rawinto" => kind == Some(Kind::Raw),
            "intoraw" | "leak" => kind == Some(Kind::Box),
            "drop" => kind.is_some(),
            "replace" => [Some(Kind::Box), Some(Kind::Leak)].contains(&kind),
            _ => true,
        };
        let mut g = Got { res: Some(()), d: vec![], n: vec![] };
        if !fits {
            r = "skip";
        } else {
            let pan = if op.a == "drop" { op.y } else { 0 };
            let old = if i < hs.len() && op.a != "mem" { std::mem::replace(&mut hs[i], Slot::Gone) } else { Slot::Gone };
            let mut new = Slot::Gone;
            g = call(pan, || {
                new = match (op.a.as_str(), old) {
                    ("mem", _) => {
                        let arena = Arena::new();
                        let base = arena.base() + 2048 + op.y as usize;
                        let size = op.x as usize;
                        regs.push(Region { _arena: arena, base, size });
                        Slot::Mem(unsafe { Uninit::from_memory(NonNull::new(base as *mut u8).unwrap().cast(), size) })
                    }
                    (how @ ("new" | "init" | "intobox"), Slot::Mem(u)) => {
                        let ty = s.cfg[op.y as usize - 1];
                        let res = if op.z == 1 {
                            with_ty!(ty, T => make::<One<T>>(u, how))
                        } else {
                            with_ty!(ty, T => make::<[T; 3]>(u, how))
                        };
                        match res {
                            Ok(h) => Slot::Hd(if how == "init" { Kind::Leak } else { Kind::Box }, false, h),
                            Err(u) => {
                                r = "err";
                                Slot::Mem(u)
                            }
                        }
                    }
                    ("drop", h) => {
                        match h {
                            Slot::Hd(_, _, h) => drop(h),
                            _ => {}
                        }
                        Slot::Gone
                    }
                    ("unsize", Slot::Hd(k, _, h)) => Slot::Hd(k, true, h.unsize()),
                    ("take" | "rawread", Slot::Hd(_, _, h)) => {
                        let (ids, u) = h.take();
                        m.extend(ids);
                        Slot::Mem(u)
                    }
                    ("rawmem", Slot::Hd(_, _, h)) => Slot::Mem(h.rawmem()),
                    ("intoraw", Slot::Hd(_, u, h)) => Slot::Hd(Kind::Raw, u, h.turn(Kind::Raw)),
                    ("fromraw", Slot::Hd(_, u, h)) => Slot::Hd(Kind::Box, u, h.turn(Kind::Box)),
                    ("leak" | "rawinto", Slot::Hd(_, u, h)) => Slot::Hd(Kind::Leak, u, h.turn(Kind::Leak)),
                    ("replace", Slot::Hd(k, u, mut h)) => {
                        m.extend(h.replace());
                        Slot::Hd(k, u, h)
                    }
                    ("end", _) => {
                        for h in std::mem::take(&mut hs) {
                            match h {
                                Slot::Hd(_, _, h) => drop(h),
                                _ => {}
                            }
                        }
                        Slot::Gone
                    }
                    (o, _) => panic!("script error {o}"),
                }
            });
            match op.a.as_str() {
                "mem" => hs.push(new),
                "end" => {}
                _ => hs[i] = new,
            }
        }
        if g.res.is_none() {
            r = "panic";
        }
        let mut good = regs.iter().all(|r| r.guards());
        let mut c = vec![];
        // one region per handle, in order
        for (h, q) in hs.iter().zip(&regs) {
            match h {
                Slot::Mem(u) => good &= u.as_ptr() as usize == q.base && u.size() == q.size,
                Slot::Hd(_, _, h) => {
                    good &= h.place() == q.base && h.fine() && h.len().map_or(true, |l| l == q.size);
                    c.extend(h.ids());
                }
                Slot::Gone => {}
            }
        }
        log.event(op, &Obs { r, v: vec![good as i64], d: g.d, c, n: g.n, m, k: 1 });
    }
}

fn main() {
    drive(run);
}
