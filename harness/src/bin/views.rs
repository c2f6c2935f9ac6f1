//! Driver for the traits that the containers pass on to their contents. cfg = [kind, element type]
use std::borrow::{Borrow, BorrowMut};
use std::cmp::Ordering;
use std::fmt;
use std::hash::{Hash, Hasher};
use std::mem::MaybeUninit;

use static_alloc::leaked::LeakBox;
use vh::*;
use without_alloc::rc::Rc;
use without_alloc::{Box as WBox, FixedVec, Uninit};

fn key(v: u8) -> u8 {
    match v {
        0 => 2,
        1 => 0,
        2 => 3,
        _ => 1,
    }
}

trait Elem: Sized + Clone + 'static {
    const TOTAL: bool;
    fn mk(v: u8) -> Self;
    fn get(&self) -> u8;
    fn cmp_total(a: &dyn std::any::Any, b: &dyn std::any::Any) -> i64;
}

macro_rules! total {
    ($t:ty) => {
        impl PartialEq for $t {
            fn eq(&self, o: &Self) -> bool {
                key(self.get()) == key(o.get())
            }
        }
        impl Eq for $t {}
        impl PartialOrd for $t {
            fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
                Some(self.cmp(o))
            }
        }
        impl Ord for $t {
            fn cmp(&self, o: &Self) -> Ordering {
                key(self.get()).cmp(&key(o.get()))
            }
        }
        impl Hash for $t {
            fn hash<H: Hasher>(&self, h: &mut H) {
                h.write_u32(1000 + key(self.get()) as u32)
            }
            // a sequence may be hashed in its own way, as the one of integers is
            fn hash_slice<H: Hasher>(all: &[Self], h: &mut H) {
                h.write_u64(all.len() as u64);
                all.iter().for_each(|x| x.hash(h));
            }
        }
        printed!($t);
    };
}
macro_rules! printed {
    ($t:ty) => {
        impl fmt::Debug for $t {
            fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
                let s = format!("dbg{}{}", self.get(), if f.alternate() { "#" } else { "" });
                f.pad(&s)
            }
        }
        impl fmt::Display for $t {
            fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
                f.pad(&format!("disp{}", self.get()))
            }
        }
    };
}

#[derive(Clone)]
struct Part(u8);
impl Elem for Part {
    const TOTAL: bool = false;
    fn mk(v: u8) -> Self {
        Part(v)
    }
    fn get(&self) -> u8 {
        self.0
    }
    fn cmp_total(_: &dyn std::any::Any, _: &dyn std::any::Any) -> i64 {
        9
    }
}
impl PartialEq for Part {
    fn eq(&self, o: &Self) -> bool {
        self.0 != 3 && o.0 != 3 && self.0 == o.0
    }
}
impl PartialOrd for Part {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        if self.0 == 3 || o.0 == 3 {
            None
        } else {
            key(self.0).partial_cmp(&key(o.0))
        }
    }
}
// never used
impl Hash for Part {
    fn hash<H: Hasher>(&self, _: &mut H) {
        unreachable!()
    }
}
printed!(Part);

#[derive(Clone)]
struct Tot(u8);
#[derive(Clone)]
struct Unit;
#[derive(Clone)]
#[repr(align(32))]
struct Wide([u8; 65]);
macro_rules! elem {
    ($t:ty, $mk:expr, $get:expr) => {
        impl Elem for $t {
            const TOTAL: bool = true;
            fn mk(v: u8) -> Self {
                $mk(v)
            }
            fn get(&self) -> u8 {
                $get(self)
            }
            fn cmp_total(a: &dyn std::any::Any, b: &dyn std::any::Any) -> i64 {
                macro_rules! of {
                    ($h:ty) => {
                        if let (Some(a), Some(b)) = (a.downcast_ref::<$h>(), b.downcast_ref::<$h>()) {
                            return Ord::cmp(a, b) as i64;
                        }
                    };
                }
                of!(WBox<'static, $t>);
                of!(Rc<'static, $t>);
                of!(FixedVec<'static, $t>);
                unreachable!()
            }
        }
        total!($t);
    };
}
elem!(Tot, Tot, |s: &Tot| s.0);
elem!(Unit, |_| Unit, |_: &Unit| 0);
elem!(Wide, |v| Wide([v; 65]), |s: &Wide| s.0[64]);

#[derive(Default, PartialEq)]
struct Rec(Vec<u64>);
impl Hasher for Rec {
    fn finish(&self) -> u64 {
        0
    }
    fn write(&mut self, b: &[u8]) {
        self.0.push(0x1_0000_0000 + b.len() as u64);
        self.0.extend(b.iter().map(|x| *x as u64));
    }
    fn write_u32(&mut self, x: u32) {
        self.0.push(x as u64);
    }
    fn write_usize(&mut self, x: usize) {
        self.0.push(0x2_0000_0000 + x as u64);
    }
}
fn hashed<T: Hash + ?Sized>(t: &T) -> Rec {
    let mut r = Rec::default();
    t.hash(&mut r);
    r
}

/// Storage that is never given back.
fn room(bytes: usize) -> &'static mut [MaybeUninit<u8>] {
    let lay = std::alloc::Layout::from_size_align(bytes, 64).unwrap();
    unsafe { std::slice::from_raw_parts_mut(std::alloc::alloc(lay) as *mut MaybeUninit<u8>, bytes) }
}

fn pc(o: Option<Ordering>) -> i64 {
    o.map_or(2, |o| o as i64)
}
fn fmt_is(m: i64, dbg: Option<(&dyn fmt::Debug, &dyn fmt::Debug)>, disp: Option<(&dyn fmt::Display, &dyn fmt::Display)>, ptr: (String, String)) -> bool {
    match m {
        0 => dbg.map(|(a, b)| format!("{a:?}") == format!("{b:?}")),
        1 => dbg.map(|(a, b)| format!("{a:#?}") == format!("{b:#?}")),
        2 => dbg.map(|(a, b)| format!("{a:*^12?}") == format!("{b:*^12?}")),
        3 => dbg.map(|(a, b)| format!("{a:<8.3?}") == format!("{b:<8.3?}")),
        4 => disp.map(|(a, b)| format!("{a}") == format!("{b}")),
        5 => disp.map(|(a, b)| format!("{a:->10.4}") == format!("{b:->10.4}")),
        6 => Some(ptr.0 == ptr.1),
        _ => None,
    }
    .expect("script error")
}

fn printed_ptr<P: fmt::Pointer>(p: &P) -> String {
    format!("{:p} {:#p} {:>30p} {:#024p}", *p, *p, *p, *p)
}

trait Handle<T: Elem>: 'static {
    fn mk(v: &[u8]) -> Self;
    fn all(&self) -> &[T];
    fn cmp(&self, _: &Self) -> Vec<i64> {
        unreachable!()
    }
    fn hash(&self) -> (Rec, Rec);
    fn fmt(&self, m: i64) -> bool;
    fn by_ref(&self, k: i64) -> &[T];
    fn by_mut(&mut self, k: i64) -> &mut [T];
    fn at(&self, _: usize) -> &T {
        unreachable!()
    }
    fn sub(&self, _: i64, _: i64) -> &[T] {
        unreachable!()
    }
    fn put_at(&mut self, _: usize, _: T) {
        unreachable!()
    }
}
fn one<T>(t: &T) -> &[T] {
    std::slice::from_ref(t)
}
fn one_mut<T>(t: &mut T) -> &mut [T] {
    std::slice::from_mut(t)
}
macro_rules! compare {
    () => {
        fn cmp(&self, o: &Self) -> Vec<i64> {
            let b = |x: bool| x as i64;
            vec![b(self == o), b(self != o), b(self < o), b(self <= o), b(self > o), b(self >= o), pc(self.partial_cmp(o)), if T::TOTAL { T::cmp_total(self, o) } else { 9 }]
        }
    };
}

impl<T: Elem + PartialOrd + Hash + fmt::Debug + fmt::Display> Handle<T> for WBox<'static, T> {
    fn mk(v: &[u8]) -> Self {
        let (_, u) = split::<T>();
        WBox::new(T::mk(v[0]), u)
    }
    fn all(&self) -> &[T] {
        one(&**self)
    }
    compare!();
    fn hash(&self) -> (Rec, Rec) {
        (hashed(self), hashed(&**self))
    }
    fn fmt(&self, m: i64) -> bool {
        fmt_is(m, Some((self, &**self)), None, (printed_ptr(&*self), printed_ptr(&(&**self as *const T))))
    }
    fn by_ref(&self, k: i64) -> &[T] {
        let mut me = unsafe { std::ptr::NonNull::from(self).as_mut() as *mut Self };
        match k {
            0 => one(&**self),
            1 => one(AsRef::<T>::as_ref(self)),
            2 => one(Borrow::<T>::borrow(self)),
            _ => self_mut::<T, Self>(&mut me, k),
        }
    }
    fn by_mut(&mut self, k: i64) -> &mut [T] {
        match k {
            3 => one_mut(&mut **self),
            4 => one_mut(AsMut::<T>::as_mut(self)),
            5 => one_mut(BorrowMut::<T>::borrow_mut(self)),
            _ => unreachable!(),
        }
    }
}
/// Only the address and the contents are looked at.
fn self_mut<'a, T: Elem, H: Handle<T>>(h: &mut *mut H, k: i64) -> &'a [T] {
    unsafe { (**h).by_mut(k) }
}
fn split<T>() -> ((), Uninit<'static, T>) {
    let u = Uninit::<[u8]>::from(room(std::mem::size_of::<T>() + 64)).as_memory();
    ((), u.cast::<T>().unwrap())
}

impl<T: Elem + PartialOrd + Hash + fmt::Debug + fmt::Display> Handle<T> for Rc<'static, T> {
    fn mk(v: &[u8]) -> Self {
        let l = Rc::<T>::layout();
        let u = Uninit::<[u8]>::from(room(l.size() + 64)).as_memory();
        Rc::new(T::mk(v[0]), u)
    }
    fn all(&self) -> &[T] {
        one(&**self)
    }
    compare!();
    fn hash(&self) -> (Rec, Rec) {
        (hashed(self), hashed(&**self))
    }
    fn fmt(&self, m: i64) -> bool {
        fmt_is(m, Some((self, &**self)), Some((self, &**self)), (printed_ptr(&*self), printed_ptr(&(&**self as *const T))))
    }
    fn by_ref(&self, k: i64) -> &[T] {
        match k {
            0 => one(&**self),
            1 => one(AsRef::<T>::as_ref(self)),
            2 => one(Borrow::<T>::borrow(self)),
            _ => unreachable!(),
        }
    }
    fn by_mut(&mut self, k: i64) -> &mut [T] {
        match k {
            6 => one_mut(Rc::get_mut(self).unwrap()),
            _ => unreachable!(),
        }
    }
}

impl<T: Elem + PartialOrd + Hash> Handle<T> for FixedVec<'static, T> {
    fn mk(v: &[u8]) -> Self {
        let u = Uninit::<[u8]>::from(room((v.len().max(63) + 1) * std::mem::size_of::<T>() + 64)).as_memory();
        let mut f = FixedVec::new(u.cast_slice::<T>().unwrap());
        for x in v {
            assert!(f.push(T::mk(*x)).is_ok());
        }
        f
    }
    fn all(&self) -> &[T] {
        self
    }
    compare!();
    fn hash(&self) -> (Rec, Rec) {
        (hashed(self), hashed(&**self))
    }
    fn fmt(&self, _: i64) -> bool {
        unreachable!()
    }
    fn by_ref(&self, k: i64) -> &[T] {
        let mut me = unsafe { std::ptr::NonNull::from(self).as_mut() as *mut Self };
        match k {
            0 => self,
            1 => AsRef::<[T]>::as_ref(self),
            2 => Borrow::<[T]>::borrow(self),
            _ => self_mut::<T, Self>(&mut me, k),
        }
    }
    fn by_mut(&mut self, k: i64) -> &mut [T] {
        match k {
            3 => &mut **self,
            4 => AsMut::<[T]>::as_mut(self),
            5 => BorrowMut::<[T]>::borrow_mut(self),
            _ => unreachable!(),
        }
    }
    fn at(&self, i: usize) -> &T {
        &self[i]
    }
    fn sub(&self, lo: i64, hi: i64) -> &[T] {
        match (lo, hi) {
            (-1, -1) => &self[..],
            (-1, h) => &self[..h as usize],
            (l, -1) => &self[l as usize..],
            (l, h) => &self[l as usize..h as usize],
        }
    }
    fn put_at(&mut self, i: usize, v: T) {
        self[i] = v;
    }
}

struct Single<T: 'static>(LeakBox<'static, T>);
impl<T: Elem + Hash + fmt::Debug + fmt::Display> Handle<T> for Single<T> {
    fn mk(v: &[u8]) -> Self {
        let m = unsafe { &mut *(room(std::mem::size_of::<T>() + 64).as_mut_ptr() as *mut MaybeUninit<T>) };
        Single(LeakBox::write(LeakBox::from(m), T::mk(v[0])))
    }
    fn all(&self) -> &[T] {
        one(&*self.0)
    }
    fn hash(&self) -> (Rec, Rec) {
        (hashed(&self.0), hashed(&*self.0))
    }
    fn fmt(&self, m: i64) -> bool {
        fmt_is(m, Some((&self.0, &*self.0)), Some((&self.0, &*self.0)), (printed_ptr(&self.0), printed_ptr(&(&*self.0 as *const T))))
    }
    fn by_ref(&self, k: i64) -> &[T] {
        let mut me = unsafe { std::ptr::NonNull::from(self).as_mut() as *mut Self };
        match k {
            0 => one(&*self.0),
            1 => one(AsRef::<T>::as_ref(&self.0)),
            _ => self_mut::<T, Self>(&mut me, k),
        }
    }
    fn by_mut(&mut self, k: i64) -> &mut [T] {
        match k {
            3 => one_mut(&mut *self.0),
            4 => one_mut(AsMut::<T>::as_mut(&mut self.0)),
            _ => unreachable!(),
        }
    }
}
struct Many<T: 'static>(LeakBox<'static, [T]>);
impl<T: Elem + Hash + fmt::Debug> Handle<T> for Many<T> {
    fn mk(v: &[u8]) -> Self {
        let b: Vec<T> = v.iter().map(|x| T::mk(*x)).collect();
        Many(unsafe { LeakBox::from_mut_unchecked(Box::leak(b.into_boxed_slice())) })
    }
    fn all(&self) -> &[T] {
        &*self.0
    }
    fn hash(&self) -> (Rec, Rec) {
        (hashed(&self.0), hashed(&*self.0))
    }
    fn fmt(&self, m: i64) -> bool {
        let i: &[T] = &self.0;
        fmt_is(m, Some((&self.0, &i)), None, (printed_ptr(&self.0), printed_ptr(&(i as *const [T]))))
    }
    fn by_ref(&self, k: i64) -> &[T] {
        let mut me = unsafe { std::ptr::NonNull::from(self).as_mut() as *mut Self };
        match k {
            0 => &*self.0,
            1 => AsRef::<[T]>::as_ref(&self.0),
            _ => self_mut::<T, Self>(&mut me, k),
        }
    }
    fn by_mut(&mut self, k: i64) -> &mut [T] {
        match k {
            3 => &mut *self.0,
            4 => AsMut::<[T]>::as_mut(&mut self.0),
            _ => unreachable!(),
        }
    }
}

fn decode(mut y: i64) -> Vec<u8> {
    let mut v = vec![];
    while y > 0 {
        v.push((y % 5 - 1) as u8);
        y /= 5;
    }
    v
}

fn run<T: Elem, H: Handle<T>>(s: &Script, log: &mut Log) {
    let start: &[u8] = if s.cfg[0] == 3 || s.cfg[0] == 5 { &[] } else { &[0] };
    let mut h = [H::mk(start), H::mk(start)];
    let mut ops = s.ops.clone();
    ops.push(Op { a: "end".into(), x: 1, y: 0, z: 0 });
    for op in &ops {
        let w = (op.x - 1) as usize;
        let mut v = vec![];
        let mut m = vec![];
        let g = call(0, || match op.a.as_str() {
            "load" => h[w] = H::mk(&decode(op.y)),
            "app" => {
                let mut c: Vec<u8> = h[w].all().iter().map(|e| e.get()).collect();
                c.extend(decode(op.y));
                h[w] = H::mk(&c);
            }
            "many" => {
                let mut c: Vec<u8> = h[w].all().iter().map(|e| e.get()).collect();
                (0..op.z).for_each(|_| c.extend(decode(op.y)));
                h[w] = H::mk(&c);
            }
            "copy" => {
                let c: Vec<u8> = h[1 - w].all().iter().map(|e| e.get()).collect();
                h[w] = H::mk(&c);
            }
            "cmp" => v = h[w].cmp(&h[op.y as usize - 1]),
            "hash" => {
                let (a, b) = h[w].hash();
                v.push((a == b) as i64);
                m = a.0.iter().filter(|x| (1000..2000).contains(*x)).map(|x| *x as i64 - 1000).collect();
            }
            "fmt" => v.push(h[w].fmt(op.y) as i64),
            "ref" => {
                let (a, b) = (h[w].by_ref(op.y), h[w].all());
                v.push((a.as_ptr() == b.as_ptr() && a.len() == b.len()) as i64);
                m = a.iter().map(|e| e.get() as i64).collect();
            }
            "put" => {
                let (val, k) = (T::mk((op.z / 8) as u8), op.z % 8);
                let i = op.y as usize;
                if k == 7 {
                    h[w].put_at(i, val);
                    v.push(1);
                } else {
                    let b = h[w].all().as_ptr();
                    let a = h[w].by_mut(k);
                    v.push((a.as_ptr() == b) as i64);
                    a[i] = val;
                }
            }
            "at" => m.push(h[w].at(op.y as usize).get() as i64),
            "sub" => m = h[w].sub(op.y, op.z).iter().map(|e| e.get() as i64).collect(),
            "end" => (),
            o => panic!("script error {o}"),
        });
        let c = h.iter().flat_map(|h| h.all().iter().map(|e| e.get() as i64)).collect();
        log.event(op, &Obs { r: if g.res.is_some() { "ok" } else { "panic" }, v, m, c, k: 1, ..Default::default() });
    }
}

fn main() {
    drive(|s, log| {
        macro_rules! ty {
            ($t:ty) => {
                match s.cfg[0] {
                    1 => run::<$t, WBox<'static, $t>>(s, log),
                    2 => run::<$t, Rc<'static, $t>>(s, log),
                    3 => run::<$t, FixedVec<'static, $t>>(s, log),
                    4 => run::<$t, Single<$t>>(s, log),
                    _ => run::<$t, Many<$t>>(s, log),
                }
            };
        }
        match s.cfg[1] {
            1 => ty!(Part),
            2 => ty!(Tot),
            3 => ty!(Unit),
            _ => ty!(Wide),
        }
    });
}
