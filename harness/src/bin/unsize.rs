#![feature(unboxed_closures, fn_traits)]
//! Driver for the `unsize` crate. cfg = [type]
use std::any::Any;
use std::fmt::{Debug, Display};
use std::future::Future;
use std::mem::{align_of_val, size_of_val};
use std::pin::Pin;
use std::ptr::NonNull;
use std::rc::{Rc, Weak as WRc};
use std::sync::{Arc, Weak as WArc};
use std::task::{Context, Poll, Waker};

use unsize::{Coercion, CoerceUnsized};
use vh::*;

/// Reads the contents through a pointer of the given type, and turns pointers to it into others.
trait View: 'static {
    fn ids(&self, ty: i64) -> Vec<i64>;
    fn ids_mut(&mut self, ty: i64) -> Vec<i64> {
        self.ids(ty)
    }
    fn len(&self) -> i64 {
        -1
    }
    fn coerce<K: Kind>(_: K::P<Self>, _: i64) -> B {
        panic!("script error")
    }
    fn call(_: Box<Self>) -> Vec<i64> {
        panic!("script error")
    }
}
trait Probe {
    fn probe(&self) -> i64;
}
struct W<T>(T);
unsafe impl<T> Send for W<T> {}
impl<T: El> Probe for W<T> {
    fn probe(&self) -> i64 {
        self.0.id()
    }
}
impl<T: El> Debug for W<T> {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "debug {}", self.0.id())
    }
}
impl<T: El> Display for W<T> {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "display {}", self.0.id())
    }
}
impl<T: El> Iterator for W<T> {
    type Item = i64;
    fn next(&mut self) -> Option<i64> {
        Some(self.0.id())
    }
}
impl<T: El> Future for W<T> {
    type Output = i64;
    fn poll(self: Pin<&mut Self>, _: &mut Context) -> Poll<i64> {
        Poll::Ready(self.0.id())
    }
}
fn num(s: String, word: &str) -> Vec<i64> {
    vec![s.strip_prefix(word).and_then(|n| n.trim().parse().ok()).unwrap_or(-5)]
}

impl<T: El> View for W<T> {
    fn ids(&self, _: i64) -> Vec<i64> {
        vec![self.0.id()]
    }
    fn coerce<K: Kind>(p: K::P<Self>, f: i64) -> B {
        match f {
            1 => hd::<K, dyn Any>(K::unsize(p, Coercion::to_any())),
            2 => hd::<K, dyn Debug>(K::unsize(p, Coercion::to_debug())),
            3 => hd::<K, dyn Display>(K::unsize(p, Coercion::to_display())),
            4 => hd::<K, dyn Probe>(K::unsize(p, unsize::Coercion!(to dyn Probe))),
            5 => hd::<K, dyn Probe + Send>(K::unsize(p, unsize::Coercion!(to dyn Probe + Send))),
            10 => hd::<K, dyn Iterator<Item = i64>>(K::unsize(p, Coercion::<Self, dyn Iterator<Item = i64>>::to_iterator())),
            11 => hd::<K, dyn Future<Output = i64>>(K::unsize(p, Coercion::<Self, dyn Future<Output = i64>>::to_future())),
            12 => hd::<K, dyn Probe>(K::unsize(p, unsafe { Coercion::new(|p: *const Self| p as *const dyn Probe) })),
            _ => panic!("script error"),
        }
    }
}
impl<T: El, const N: usize> View for [W<T>; N] {
    fn ids(&self, _: i64) -> Vec<i64> {
        self.iter().map(|w| w.0.id()).collect()
    }
    fn coerce<K: Kind>(p: K::P<Self>, f: i64) -> B {
        assert_eq!(f, 6);
        hd::<K, [W<T>]>(K::unsize(p, Coercion::to_slice()))
    }
}
impl<T: El> View for [W<T>] {
    fn ids(&self, _: i64) -> Vec<i64> {
        self.iter().map(|w| w.0.id()).collect()
    }
    fn len(&self) -> i64 {
        <[W<T>]>::len(self) as i64
    }
}
impl View for dyn Any {
    fn ids(&self, ty: i64) -> Vec<i64> {
        with_ty!(ty, T => vec![self.downcast_ref::<W<T>>().map_or(-6, |w| w.0.id())])
    }
}
impl View for dyn Debug {
    fn ids(&self, _: i64) -> Vec<i64> {
        num(format!("{self:?}"), "debug")
    }
}
impl View for dyn Display {
    fn ids(&self, _: i64) -> Vec<i64> {
        num(format!("{self}"), "display")
    }
}
impl View for dyn Probe {
    fn ids(&self, _: i64) -> Vec<i64> {
        vec![self.probe()]
    }
}
impl View for dyn Probe + Send {
    fn ids(&self, _: i64) -> Vec<i64> {
        vec![self.probe()]
    }
}
impl View for dyn Iterator<Item = i64> {
    fn ids(&self, _: i64) -> Vec<i64> {
        vec![-6]
    }
    fn ids_mut(&mut self, _: i64) -> Vec<i64> {
        vec![self.next().unwrap_or(-5)]
    }
}
impl View for dyn Future<Output = i64> {
    fn ids(&self, _: i64) -> Vec<i64> {
        vec![-6]
    }
    fn ids_mut(&mut self, _: i64) -> Vec<i64> {
        let mut cx = Context::from_waker(Waker::noop());
        match unsafe { Pin::new_unchecked(self) }.poll(&mut cx) {
            Poll::Ready(n) => vec![n],
            _ => vec![-5],
        }
    }
}

/// A closure that owns a value.
struct Clo<T, const N: usize>(W<T>);
macro_rules! closures {
    ($($n:literal ($($a:ty),*) ($($v:literal),*);)*) => {$(
        impl<T: El> FnOnce<($($a,)*)> for Clo<T, $n> {
            type Output = i64;
            extern "rust-call" fn call_once(self, a: ($($a,)*)) -> i64 {
                if a == ($($v,)*) { self.0.0.eat() } else { -5 }
            }
        }
        impl<T: El> FnMut<($($a,)*)> for Clo<T, $n> {
            extern "rust-call" fn call_mut(&mut self, a: ($($a,)*)) -> i64 {
                if a == ($($v,)*) { self.0.0.id() } else { -5 }
            }
        }
        impl<T: El> Fn<($($a,)*)> for Clo<T, $n> {
            extern "rust-call" fn call(&self, a: ($($a,)*)) -> i64 {
                if a == ($($v,)*) { self.0.0.id() } else { -5 }
            }
        }
        impl<T: El> View for Clo<T, $n> {
            fn ids(&self, _: i64) -> Vec<i64> {
                vec![self.0.0.id()]
            }
            fn coerce<K: Kind>(p: K::P<Self>, f: i64) -> B {
                match f {
                    7 => hd::<K, dyn Fn($($a),*) -> i64>(K::unsize(p, Coercion::<Self, dyn Fn($($a),*) -> i64>::to_fn())),
                    8 => hd::<K, dyn FnMut($($a),*) -> i64>(K::unsize(p, Coercion::<Self, dyn FnMut($($a),*) -> i64>::to_fn_mut())),
                    9 => hd::<K, dyn FnOnce($($a),*) -> i64>(K::unsize(p, Coercion::<Self, dyn FnOnce($($a),*) -> i64>::to_fn_once())),
                    _ => panic!("script error"),
                }
            }
        }
        impl View for dyn Fn($($a),*) -> i64 {
            fn ids(&self, _: i64) -> Vec<i64> {
                vec![self($($v),*)]
            }
        }
        impl View for dyn FnMut($($a),*) -> i64 {
            fn ids(&self, _: i64) -> Vec<i64> {
                vec![-6]
            }
            fn ids_mut(&mut self, _: i64) -> Vec<i64> {
                vec![self($($v),*)]
            }
        }
        impl View for dyn FnOnce($($a),*) -> i64 {
            fn ids(&self, _: i64) -> Vec<i64> {
                vec![]
            }
            fn call(b: Box<Self>) -> Vec<i64> {
                vec![b($($v),*)]
            }
        }
    )*};
}
closures! {
    0 () ();
    1 (u8) (1);
    2 (u8, u64) (1, 2);
    3 (u8, u64, i32) (1, 2, 3);
    4 (u8, u64, i32, char) (1, 2, 3, 'a');
    5 (u8, u64, i32, char, u16) (1, 2, 3, 'b', 5);
    6 (u8, u64, i32, char, u16, bool) (1, 2, 3, 'c', 5, true);
}

type B = Box<dyn Hd>;
/// The kinds of pointers.
trait Kind: Sized + 'static {
    type P<X: ?Sized + 'static>: 'static;
    fn make<X: 'static>(x: X) -> Self::P<X>;
    fn null<X: 'static>() -> Self::P<X> {
        panic!("script error")
    }
    fn unsize<X: 'static, Y: ?Sized + 'static, F: Clone + FnOnce(*const X) -> *const Y>(p: Self::P<X>, c: Coercion<X, Y, F>) -> Self::P<Y>;
    fn addr<X: ?Sized + 'static>(p: &Self::P<X>) -> usize;
    fn get<X: ?Sized + 'static>(p: &Self::P<X>) -> Option<*const X>;
    fn counts<X: ?Sized + 'static>(_: &Self::P<X>) -> (i64, i64) {
        (-1, -1)
    }
    fn dup<X: View + ?Sized>(_: &Self::P<X>) -> B {
        panic!("script error")
    }
    fn down<X: View + ?Sized>(_: &Self::P<X>) -> B {
        panic!("script error")
    }
    fn up<X: View + ?Sized>(_: &Self::P<X>) -> Option<B> {
        panic!("script error")
    }
    fn boxed<X: ?Sized + 'static>(_: Self::P<X>) -> Box<X> {
        panic!("script error")
    }
}
/// Values that nobody owns: kept until the end, never destroyed.
fn place<X: 'static>(x: X) -> *mut X {
    Box::into_raw(Box::new(x))
}
macro_rules! kind {
    ($name:ident, $x:ident, $p:ty, |$v:ident| $make:expr, |$q:ident| $ptr:expr; $($more:tt)*) => {
        struct $name;
        impl Kind for $name {
            type P<$x: ?Sized + 'static> = $p;
            fn make<$x: 'static>($v: $x) -> $p {
                $make
            }
            fn unsize<$x: 'static, Y: ?Sized + 'static, F: Clone + FnOnce(*const $x) -> *const Y>(p: $p, c: Coercion<$x, Y, F>) -> Self::P<Y> {
                // the same coercion, or a copy of it
                if std::mem::size_of::<$x>() % 16 == 8 { p.unsize(c.clone()) } else { p.unsize(c) }
            }
            fn addr<$x: ?Sized + 'static>($q: &$p) -> usize {
                $ptr as *const u8 as usize
            }
            $($more)*
        }
    };
}
kind!(Cp, X, *const X, |v| place(v), |q| *q;
    fn null<X: 'static>() -> *const X { std::ptr::null() }
    fn get<X: ?Sized + 'static>(p: &*const X) -> Option<*const X> { if p.is_null() { None } else { Some(*p) } }
    fn dup<X: View + ?Sized>(p: &*const X) -> B { hd::<Self, X>(*p) });
kind!(Mp, X, *mut X, |v| place(v), |q| *q;
    fn null<X: 'static>() -> *mut X { std::ptr::null_mut() }
    fn get<X: ?Sized + 'static>(p: &*mut X) -> Option<*const X> { if p.is_null() { None } else { Some(*p) } });
kind!(Rf, X, &'static X, |v| unsafe { &*place(v) }, |q| *q as *const X;
    fn get<X: ?Sized + 'static>(p: &&'static X) -> Option<*const X> { Some(*p) }
    fn dup<X: View + ?Sized>(p: &&'static X) -> B { hd::<Self, X>(*p) });
kind!(Mu, X, &'static mut X, |v| unsafe { &mut *place(v) }, |q| &**q as *const X;
    fn get<X: ?Sized + 'static>(p: &&'static mut X) -> Option<*const X> { Some(&**p) });
kind!(Pm, X, Pin<&'static mut X>, |v| unsafe { Pin::new_unchecked(&mut *place(v)) }, |q| &**q as *const X;
    fn get<X: ?Sized + 'static>(p: &Pin<&'static mut X>) -> Option<*const X> { Some(&**p) });
kind!(Pb, X, Pin<Box<X>>, |v| Box::pin(v), |q| &**q as *const X;
    fn get<X: ?Sized + 'static>(p: &Pin<Box<X>>) -> Option<*const X> { Some(&**p) });
kind!(Nn, X, NonNull<X>, |v| NonNull::new(place(v)).unwrap(), |q| q.as_ptr();
    fn null<X: 'static>() -> NonNull<X> { NonNull::dangling() }
    fn get<X: ?Sized + 'static>(p: &NonNull<X>) -> Option<*const X> { Some(p.as_ptr()) });
kind!(Bx, X, Box<X>, |v| Box::new(v), |q| &**q as *const X;
    fn get<X: ?Sized + 'static>(p: &Box<X>) -> Option<*const X> { Some(&**p) }
    fn boxed<X: ?Sized + 'static>(p: Box<X>) -> Box<X> { p });
kind!(Ra, X, Rc<X>, |v| Rc::new(v), |q| Rc::as_ptr(q);
    fn get<X: ?Sized + 'static>(p: &Rc<X>) -> Option<*const X> { Some(&**p) }
    fn counts<X: ?Sized + 'static>(p: &Rc<X>) -> (i64, i64) { (Rc::strong_count(p) as i64, Rc::weak_count(p) as i64) }
    fn dup<X: View + ?Sized>(p: &Rc<X>) -> B { hd::<Self, X>(p.clone()) }
    fn down<X: View + ?Sized>(p: &Rc<X>) -> B { hd::<WRa, X>(Rc::downgrade(p)) });
kind!(Aa, X, Arc<X>, |v| Arc::new(v), |q| Arc::as_ptr(q);
    fn get<X: ?Sized + 'static>(p: &Arc<X>) -> Option<*const X> { Some(&**p) }
    fn counts<X: ?Sized + 'static>(p: &Arc<X>) -> (i64, i64) { (Arc::strong_count(p) as i64, Arc::weak_count(p) as i64) }
    fn dup<X: View + ?Sized>(p: &Arc<X>) -> B { hd::<Self, X>(p.clone()) }
    fn down<X: View + ?Sized>(p: &Arc<X>) -> B { hd::<WAa, X>(Arc::downgrade(p)) });
kind!(WRa, X, WRc<X>, |_v| panic!("script error"), |q| q.as_ptr();
    fn null<X: 'static>() -> WRc<X> { WRc::new() }
    fn get<X: ?Sized + 'static>(_: &WRc<X>) -> Option<*const X> { None }
    fn counts<X: ?Sized + 'static>(p: &WRc<X>) -> (i64, i64) { (p.strong_count() as i64, p.weak_count() as i64) }
    fn dup<X: View + ?Sized>(p: &WRc<X>) -> B { hd::<Self, X>(p.clone()) }
    fn up<X: View + ?Sized>(p: &WRc<X>) -> Option<B> { p.upgrade().map(|p| hd::<Ra, X>(p)) });
kind!(WAa, X, WArc<X>, |_v| panic!("script error"), |q| q.as_ptr();
    fn null<X: 'static>() -> WArc<X> { WArc::new() }
    fn get<X: ?Sized + 'static>(_: &WArc<X>) -> Option<*const X> { None }
    fn counts<X: ?Sized + 'static>(p: &WArc<X>) -> (i64, i64) { (p.strong_count() as i64, p.weak_count() as i64) }
    fn dup<X: View + ?Sized>(p: &WArc<X>) -> B { hd::<Self, X>(p.clone()) }
    fn up<X: View + ?Sized>(p: &WArc<X>) -> Option<B> { p.upgrade().map(|p| hd::<Aa, X>(p)) });

trait Hd {
    fn addr(&self) -> usize;
    /// size, alignment, strong, weak, length; and the contents
    fn row(&mut self, there: bool, ty: i64) -> ([i64; 5], Vec<i64>);
    fn coerce(self: Box<Self>, f: i64) -> B;
    fn dup(&self) -> B;
    fn down(&self) -> B;
    fn up(&self) -> Option<B>;
    fn call(self: Box<Self>) -> Vec<i64>;
}
struct H<K: Kind, X: ?Sized + 'static>(K::P<X>);
fn hd<K: Kind, X: View + ?Sized>(p: K::P<X>) -> B {
    Box::new(H::<K, X>(p))
}
impl<K: Kind, X: View + ?Sized> Hd for H<K, X> {
    fn addr(&self) -> usize {
        K::addr(&self.0)
    }
    fn row(&mut self, there: bool, ty: i64) -> ([i64; 5], Vec<i64>) {
        let (s, w) = K::counts(&self.0);
        if !there {
            return ([-1, -1, s, w, -1], vec![]);
        }
        match K::get(&self.0) {
            None => ([-1, -1, s, w, -1], vec![]),
            Some(p) => {
                let x = unsafe { &mut *(p as *mut X) };
                ([size_of_val(x) as i64, align_of_val(x) as i64, s, w, x.len()], x.ids_mut(ty))
            }
        }
    }
    fn coerce(self: Box<Self>, f: i64) -> B {
        X::coerce::<K>(self.0, f)
    }
    fn dup(&self) -> B {
        K::dup(&self.0)
    }
    fn down(&self) -> B {
        K::down(&self.0)
    }
    fn up(&self) -> Option<B> {
        K::up(&self.0)
    }
    fn call(self: Box<Self>) -> Vec<i64> {
        X::call(K::boxed(self.0))
    }
}

fn with_kind<X: View>(k: i64, x: Option<X>) -> B {
    fn go<K: Kind, X: View>(x: Option<X>) -> B {
        hd::<K, X>(match x {
            Some(x) => K::make(x),
            None => K::null(),
        })
    }
    match k {
        1 => go::<Cp, X>(x),
        2 => go::<Mp, X>(x),
        3 => go::<Rf, X>(x),
        4 => go::<Mu, X>(x),
        5 => go::<Pm, X>(x),
        6 => go::<Pb, X>(x),
        7 => go::<Nn, X>(x),
        8 => go::<Bx, X>(x),
        9 => go::<Ra, X>(x),
        10 => go::<Aa, X>(x),
        11 => go::<WRa, X>(x),
        12 => go::<WAa, X>(x),
        k => panic!("no kind {k}"),
    }
}
fn make<T: El>(k: i64, t: i64, real: bool) -> B {
    let w = || W(T::mk());
    match t {
        1 => with_kind::<W<T>>(k, real.then(w)),
        2 => with_kind::<[W<T>; 0]>(k, real.then(|| [])),
        3 => with_kind::<[W<T>; 1]>(k, real.then(|| [w()])),
        4 => with_kind::<[W<T>; 3]>(k, real.then(|| [w(), w(), w()])),
        5 => with_kind::<Clo<T, 0>>(k, real.then(|| Clo(w()))),
        6 => with_kind::<Clo<T, 1>>(k, real.then(|| Clo(w()))),
        7 => with_kind::<Clo<T, 2>>(k, real.then(|| Clo(w()))),
        8 => with_kind::<Clo<T, 3>>(k, real.then(|| Clo(w()))),
        9 => with_kind::<Clo<T, 4>>(k, real.then(|| Clo(w()))),
        10 => with_kind::<Clo<T, 5>>(k, real.then(|| Clo(w()))),
        11 => with_kind::<Clo<T, 6>>(k, real.then(|| Clo(w()))),
        t => panic!("no object {t}"),
    }
}

/// Compares coercions made of two functions (which the compiler cannot take for the same one).
fn compare(x: i64, y: i64) -> Vec<i64> {
    use std::hash::{DefaultHasher, Hash, Hasher};
    fn one(p: *const u8) -> *const dyn Debug {
        p
    }
    fn two(p: *const u8) -> *const dyn Debug {
        std::hint::black_box(2);
        p
    }
    type F = fn(*const u8) -> *const dyn Debug;
    let fs: [F; 2] = [std::hint::black_box(one), std::hint::black_box(two)];
    // SAFETY: both only unsize
    let co = |i: i64| unsafe { Coercion::<u8, dyn Debug, F>::new(fs[i as usize - 1]) };
    let (a, b) = (co(x), co(y));
    let (c, d) = (a.clone(), b);
    let hash = |c: &Coercion<u8, dyn Debug, F>| {
        let mut h = DefaultHasher::new();
        c.hash(&mut h);
        h.finish()
    };
    let v = 7u8;
    let p = c.clone();
    let seen = format!("{:?}", (&v).unsize(p)) == "7" && !format!("{c:?}").is_empty();
    vec![(a == b) as i64, (c == d) as i64, (a != b) as i64, ((a != b || hash(&c) == hash(&d)) && seen) as i64]
}
fn run(s: &Script, log: &mut Log) {
    let ty = s.cfg[0];
    // handle, kind, form, kind of the object, whether there is one, address
    struct E(Option<B>, i64, i64, i64, bool, usize);
    let mut hs: Vec<E> = vec![];
    let mut ops = s.ops.clone();
    ops.push(Op { a: "end".into(), x: 0, y: 0, z: 0 });
    for op in &ops {
        let mut r = "ok";
        let mut m = vec![];
        let i = (op.x - 1) as usize;
        let live = i < hs.len() && hs[i].0.is_some();
        let (k, f, t) = if live { (hs[i].1, hs[i].2, hs[i].3) } else { (0, 0, 0) };
        let mutable = [2, 4, 5, 6, 7, 8].contains(&k);
        let ok = match op.a.as_str() {
            "uns" => f == 0 && live && match op.y {
                1..=5 | 12 => t == 1,
                10 | 11 => t == 1 && mutable,
                6 => [2, 3, 4].contains(&t),
                7 => t >= 5,
                8 => t >= 5 && mutable,
                9 => t >= 5 && k == 8,
                _ => false,
            },
            "clone" => [1, 3, 9, 10, 11, 12].contains(&k),
            "down" => [9, 10].contains(&k),
            "up" => [11, 12].contains(&k),
            "drop" => live,
            "call" => f == 9,
            _ => true,
        };
        let mut g = Got { res: Some(()), d: vec![], n: vec![] };
        if !ok {
            r = "skip";
        } else {
            g = call(0, || match op.a.as_str() {
                "new" | "null" => {
                    let real = op.a == "new";
                    let b = with_ty!(ty, T => make::<T>(op.x, op.y, real));
                    let a = b.addr();
                    hs.push(E(Some(b), op.x, 0, op.y, real, a));
                }
                "uns" => {
                    let b = hs[i].0.take().unwrap();
                    hs[i].0 = Some(b.coerce(op.y));
                    hs[i].2 = op.y;
                }
                "clone" | "down" => {
                    let b = hs[i].0.as_ref().unwrap();
                    let b = if op.a == "clone" { b.dup() } else { b.down() };
                    let e = E(Some(b), k + if op.a == "clone" { 0 } else { 2 }, f, t, hs[i].4, hs[i].5);
                    hs.push(e);
                }
                "up" => match hs[i].0.as_ref().unwrap().up() {
                    Some(b) => {
                        let e = E(Some(b), k - 2, f, t, hs[i].4, hs[i].5);
                        hs.push(e);
                    }
                    None => r = "none",
                },
                "drop" => hs[i].0 = None,
                "co" => m = compare(op.x, op.y),
                "call" => m = hs[i].0.take().unwrap().call(),
                "end" => {
                    for e in hs.iter_mut() {
                        e.0 = None;
                    }
                }
                o => panic!("script error {o}"),
            });
        }
        if g.res.is_none() {
            r = "panic";
        }
        let (mut v, mut c) = (vec![], vec![]);
        for E(b, _, _, _, there, a) in hs.iter_mut() {
            let Some(b) = b else { continue };
            let good = b.addr() == *a;
            let (row, ids) = b.row(*there && good, ty);
            v.push(good as i64);
            v.extend(row);
            c.extend(ids);
        }
        log.event(op, &Obs { r, v, d: g.d, c, n: g.n, m, k: 1 });
    }
}
fn main() {
    drive(run);
}
