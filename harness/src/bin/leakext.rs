//! Driver for without_alloc::alloc::LocalAllocLeakExt.
//! cfg = [kind of allocator, size of its memory, address modulo 4096, extra bytes granted]
use std::alloc::Layout;
use std::cell::Cell;
use std::mem::{align_of, align_of_val, size_of, size_of_val, ManuallyDrop, MaybeUninit};
use std::ptr::NonNull;

use alloc_traits::{AllocTime, Allocation, LocalAlloc, NonZeroLayout};
use static_alloc::Bump;
use vh::*;
use without_alloc::alloc::LocalAllocLeakExt;
use without_alloc::{boxed, rc::Rc, FixedVec, Uninit};

struct Mock {
    base: usize,
    cap: usize,
    extra: usize,
    at: Cell<usize>,
    refuse: Cell<bool>,
}
unsafe impl<'a> LocalAlloc<'a> for Mock {
    fn alloc(&'a self, l: NonZeroLayout) -> Option<Allocation<'a>> {
        if self.refuse.get() {
            return None;
        }
        let a = self.base + self.at.get();
        let s = (a + l.align() - 1) / l.align() * l.align() - self.base;
        let size = l.size().get().checked_add(self.extra)?;
        if s.checked_add(size)? > self.cap {
            return None;
        }
        self.at.set(s + size);
        let l = NonZeroLayout::from_layout(Layout::from_size_align(size, l.align()).ok()?.into()).unwrap();
        Some(Allocation { ptr: NonNull::new((self.base + s) as *mut u8).unwrap(), layout: l, lifetime: AllocTime::default() })
    }
    unsafe fn dealloc(&'a self, al: Allocation<'a>) {
        // only the last one comes back
        let s = al.ptr.as_ptr() as usize - self.base;
        if s + al.layout.size().get() == self.at.get() {
            self.at.set(s);
        }
    }
}

trait Probe {
    fn probe(&self) -> i64;
}
impl<T: El> Probe for T {
    fn probe(&self) -> i64 {
        self.id()
    }
}
#[repr(C)]
struct Tail<T: ?Sized> {
    tag: u32,
    t: T,
}
/// A copyable value of the same layout.
trait Cp: Copy + 'static {
    fn with_id(id: i64) -> Self;
    fn id(&self) -> i64;
}
macro_rules! cp {
    ($name:ident, $repr:meta, $int:ty, $n:expr) => {
        #[$repr]
        #[derive(Clone, Copy)]
        struct $name([$int; $n]);
        impl Cp for $name {
            fn with_id(id: i64) -> Self {
                let mut a = [0 as $int; $n];
                for (i, w) in a.iter_mut().enumerate() {
                    *w = (id as $int).wrapping_add((i as $int).wrapping_mul(37));
                }
                $name(a)
            }
            fn id(&self) -> i64 {
                if $n == 0 {
                    return 0;
                }
                let a = unsafe { std::ptr::read_volatile(&self.0) };
                for (i, w) in a.iter().enumerate() {
                    if *w != a[0].wrapping_add((i as $int).wrapping_mul(37)) {
                        return -9;
                    }
                }
                a.first().map_or(0, |a| *a as i64)
            }
        }
    };
}
cp!(C1, repr(C), u8, 1);
cp!(C2, repr(C), u32, 1);
cp!(C3, repr(C), u64, 1);
cp!(C4, repr(C), u64, 3);
cp!(C5, repr(C), u8, 0);
cp!(C6, repr(align(16)), u64, 0);
cp!(C7, repr(align(16)), u64, 4);
cp!(C8, repr(C), u16, 1);
cp!(C9, repr(align(64)), u64, 8);
cp!(C10, repr(C), u8, 3);
cp!(C11, repr(C), u64, 2);
cp!(C13, repr(C), u64, 40);
macro_rules! with_cp {
    ($idx:expr, $T:ident => $body:expr) => {
        match $idx {
            1 => { type $T = C1; $body }
            2 => { type $T = C2; $body }
            3 => { type $T = C3; $body }
            4 => { type $T = C4; $body }
            5 => { type $T = C5; $body }
            6 => { type $T = C6; $body }
            7 => { type $T = C7; $body }
            8 => { type $T = C8; $body }
            9 => { type $T = C9; $body }
            10 => { type $T = C10; $body }
            11 => { type $T = C11; $body }
            13 => { type $T = C13; $body }
            o => panic!("no type {o}"),
        }
    };
}

/// What was created: where it is and how to use it.
struct Place {
    addr: usize,
    bytes: usize,
    cap: i64,
    len: i64,
    align: usize,
}
trait It {
    fn place(&self) -> Place;
    fn ids(&self) -> Vec<i64>;
    fn write(&mut self) -> bool {
        false
    }
    fn push(&mut self) -> Option<Result<(), i64>> {
        None
    }
    fn dropped(self: Box<Self>) -> Result<(), Box<dyn It>>;
}

struct Region(Uninit<'static, ()>, i64);
impl It for Region {
    fn place(&self) -> Place {
        Place { addr: self.0.as_ptr() as usize, bytes: self.0.size(), cap: -2, len: -2, align: 1 }
    }
    fn ids(&self) -> Vec<i64> {
        if self.1 == 0 {
            return vec![];
        }
        let p = self.0.as_ptr() as *const u8;
        let ok = (0..self.0.size()).all(|i| unsafe { p.add(i).read_volatile() } == self.1 as u8);
        vec![if ok { self.1 } else { -9 }]
    }
    fn write(&mut self) -> bool {
        self.1 = fresh();
        NEW.with(|n| n.borrow_mut().push(self.1));
        unsafe { std::ptr::write_bytes(self.0.as_ptr() as *mut u8, self.1 as u8, self.0.size()) };
        true
    }
    fn dropped(self: Box<Self>) -> Result<(), Box<dyn It>> {
        Err(self)
    }
}
enum One<T: 'static> {
    Un(Option<Uninit<'static, T>>),
    Val(&'static mut T),
}
impl<T: El> It for One<T> {
    fn place(&self) -> Place {
        let (addr, bytes) = match self {
            One::Un(u) => (u.as_ref().unwrap().as_ptr() as usize, u.as_ref().unwrap().size()),
            One::Val(v) => (&**v as *const T as usize, size_of::<T>()),
        };
        Place { addr, bytes, cap: -2, len: -2, align: align_of::<T>() }
    }
    fn ids(&self) -> Vec<i64> {
        match self {
            One::Un(_) => vec![],
            One::Val(v) => vec![v.id()],
        }
    }
    fn write(&mut self) -> bool {
        match self {
            One::Un(u) => *self = One::Val(u.take().unwrap().init(T::mk())),
            One::Val(_) => return false,
        }
        true
    }
    fn dropped(self: Box<Self>) -> Result<(), Box<dyn It>> {
        Err(self)
    }
}
struct Bx<T: 'static>(boxed::Box<'static, T>);
impl<T: El> It for Bx<T> {
    fn place(&self) -> Place {
        Place { addr: &*self.0 as *const T as usize, bytes: size_of::<T>(), cap: -2, len: -2, align: align_of::<T>() }
    }
    fn ids(&self) -> Vec<i64> {
        vec![self.0.id()]
    }
    fn dropped(self: Box<Self>) -> Result<(), Box<dyn It>> {
        Ok(())
    }
}
struct R<T: 'static>(Rc<'static, T>);
impl<T: El> It for R<T> {
    fn place(&self) -> Place {
        Place { addr: &*self.0 as *const T as usize, bytes: size_of::<T>(), cap: -2, len: -2, align: align_of::<T>() }
    }
    fn ids(&self) -> Vec<i64> {
        vec![if (Rc::strong_count(&self.0), Rc::weak_count(&self.0)) == (1, 1) { self.0.id() } else { -7 }]
    }
    fn dropped(self: Box<Self>) -> Result<(), Box<dyn It>> {
        Ok(())
    }
}
struct Fv<T: 'static>(FixedVec<'static, T>);
impl<T: El> It for Fv<T> {
    fn place(&self) -> Place {
        let cap = self.0.capacity();
        Place {
            addr: self.0.as_slice().as_ptr() as usize,
            bytes: if size_of::<T>() == 0 { 0 } else { cap.saturating_mul(size_of::<T>()) },
            cap: if cap == usize::MAX { -1 } else { cap as i64 },
            len: self.0.len() as i64,
            align: align_of::<T>(),
        }
    }
    fn ids(&self) -> Vec<i64> {
        self.0.iter().map(|x| x.id()).collect()
    }
    fn push(&mut self) -> Option<Result<(), i64>> {
        Some(self.0.push(T::mk()).map_err(|x| x.eat()))
    }
    fn dropped(self: Box<Self>) -> Result<(), Box<dyn It>> {
        Ok(())
    }
}
struct Sl<T: 'static>(&'static mut [T]);
impl<T: Cp> It for Sl<T> {
    fn place(&self) -> Place {
        Place { addr: self.0.as_ptr() as usize, bytes: size_of_val(&*self.0), cap: -2, len: self.0.len() as i64, align: align_of::<T>() }
    }
    fn ids(&self) -> Vec<i64> {
        self.0.iter().map(|x| x.id()).collect()
    }
    fn dropped(self: Box<Self>) -> Result<(), Box<dyn It>> {
        Err(self)
    }
}
const STR: [&str; 12] = [
    "", "x", "ß", "hel wörl€!", "0123456789 abcdefghij 0123456789 zyxwvut",
    "\0", "a\0\0", " \t lead, trail\r\n", "\u{FEFF}bom", "\u{10FFFF}\u{7F}", "e\u{301}\u{200D}", "\0日本語 ",
];
fn text(k: usize) -> String {
    match k {
        12 => "añ€z".repeat(50),
        13 => "añ€z".repeat(700),
        k => String::from(STR[k]),
    }
}
/// A string and the id it stands for.
struct St(&'static str, usize, i64);
impl It for St {
    fn place(&self) -> Place {
        Place { addr: self.0.as_ptr() as usize, bytes: self.0.len(), cap: -2, len: self.0.len() as i64, align: 1 }
    }
    fn ids(&self) -> Vec<i64> {
        vec![if self.0 == text(self.1) { self.2 } else { -9 }]
    }
    fn dropped(self: Box<Self>) -> Result<(), Box<dyn It>> {
        Err(self)
    }
}
struct DSl<T: 'static>(&'static mut [T]);
impl<T: El> It for DSl<T> {
    fn place(&self) -> Place {
        Place { addr: self.0.as_ptr() as usize, bytes: size_of_val(&*self.0), cap: -2, len: self.0.len() as i64, align: align_of::<T>() }
    }
    fn ids(&self) -> Vec<i64> {
        self.0.iter().map(|x| x.id()).collect()
    }
    fn dropped(self: Box<Self>) -> Result<(), Box<dyn It>> {
        unsafe { std::ptr::drop_in_place(self.0) };
        Ok(())
    }
}
struct DDyn(&'static mut dyn Probe);
impl It for DDyn {
    fn place(&self) -> Place {
        Place { addr: &*self.0 as *const dyn Probe as *const u8 as usize, bytes: size_of_val(&*self.0), cap: -2, len: -2, align: align_of_val(&*self.0) }
    }
    fn ids(&self) -> Vec<i64> {
        vec![self.0.probe()]
    }
    fn dropped(self: Box<Self>) -> Result<(), Box<dyn It>> {
        unsafe { std::ptr::drop_in_place(self.0) };
        Ok(())
    }
}
struct DTail(&'static mut Tail<dyn Probe>);
impl It for DTail {
    fn place(&self) -> Place {
        Place { addr: &*self.0 as *const Tail<dyn Probe> as *const u8 as usize, bytes: size_of_val(&*self.0), cap: -2, len: -2, align: align_of_val(&*self.0) }
    }
    fn ids(&self) -> Vec<i64> {
        vec![if self.0.tag == 0x1234567 { self.0.t.probe() } else { -9 }]
    }
    fn dropped(self: Box<Self>) -> Result<(), Box<dyn It>> {
        unsafe { std::ptr::drop_in_place(self.0) };
        Ok(())
    }
}

fn num(n: i64, max: usize) -> usize {
    match n {
        -1 => usize::MAX,
        -2 => usize::MAX / 2 + 1,
        -3 => max,
        n => n as usize,
    }
}

fn make<A: LocalAlloc<'static>>(al: &'static A, op: &Op) -> Option<Box<dyn It>> {
    fn b<I: It + 'static>(i: I) -> Box<dyn It> {
        Box::new(i)
    }
    match op.a.as_str() {
        "lay" => {
            let size = if op.x < 0 { isize::MAX as usize - 4095 } else { op.x as usize };
            let l = NonZeroLayout::from_layout(Layout::from_size_align(size, op.y as usize).unwrap().into()).unwrap();
            al.alloc_layout(l).map(|l| b(Region(l.uninit, 0)))
        }
        "t" => with_ty!(op.x, T => al.alloc_t::<T>().map(|l| b(One::Un(Some(l.uninit))))),
        "box" => with_ty!(op.x, T => al.boxed(T::mk()).map(|v| b(Bx(v)))),
        "rc" => with_ty!(op.x, T => al.rc(T::mk()).map(|v| b(R(v)))),
        "fv" => with_ty!(op.x, T => al.fixed_vec::<T>(num(op.y, isize::MAX as usize / size_of::<T>().max(1))).map(|v| b(Fv(v)))),
        "slice" => with_cp!(op.x, T => {
            let src: Vec<T> = (0..op.y).map(|_| {
                let id = fresh();
                let v = T::with_id(id);
                NEW.with(|n| n.borrow_mut().push(v.id()));
                v
            }).collect();
            let r = al.copy_slice(&src[..]);
            if let Some(r) = &r {
                // a copy, not the source
                assert!(size_of::<T>() == 0 || src.is_empty() || r.as_ptr() != src.as_ptr());
            }
            r.map(|s| b(Sl(s)))
        }),
        "str" | "dstr" => {
            let id = fresh();
            NEW.with(|n| n.borrow_mut().push(id));
            let k = op.x as usize - 1;
            let src = text(k);
            let r = if op.a == "str" {
                al.copy_str(&src)
            } else {
                let p: &ManuallyDrop<str> = unsafe { &*(&src[..] as *const str as *const ManuallyDrop<str>) };
                unsafe { al.copy_dst::<str>(p) }.map(|s| &*s)
            };
            drop(src);
            r.map(|s| b(St(s, k, id)))
        }
        "dst" if op.y == -1 => with_ty!(op.x, T => {
            let v = ManuallyDrop::new(T::mk());
            let p: &ManuallyDrop<dyn Probe> = &v;
            unsafe { al.copy_dst::<dyn Probe>(p) }.map(|d| b(DDyn(d)))
        }),
        "dst" if op.y == -3 => with_ty!(op.x, T => {
            let v = ManuallyDrop::new(Tail { tag: 0x1234567, t: T::mk() });
            let p: &ManuallyDrop<Tail<dyn Probe>> = &v;
            unsafe { al.copy_dst::<Tail<dyn Probe>>(p) }.map(|d| b(DTail(d)))
        }),
        "dst" => with_ty!(op.x, T => {
            let mut v: Vec<T> = (0..op.y).map(|_| T::mk()).collect();
            let r = unsafe {
                let p: &ManuallyDrop<[T]> = &*(&v[..] as *const [T] as *const ManuallyDrop<[T]>);
                al.copy_dst::<[T]>(p)
            };
            unsafe { v.set_len(0) };
            r.map(|d| b(DSl(d)))
        }),
        o => panic!("script error {o}"),
    }
}

const START: usize = 4096;
/// The memory and its surroundings, which nothing may write to.
struct Space(&'static mut [u8]);
impl Space {
    /// Room for `n` bytes of memory.
    fn new(n: usize) -> Space {
        let n = (START + n + 512 + 4095) / 4096 * 4096;
        unsafe {
            let p = std::alloc::alloc(Layout::from_size_align(n, 4096).unwrap());
            p.write_bytes(0x5A, n);
            Space(std::slice::from_raw_parts_mut(p, n))
        }
    }
}
impl Drop for Space {
    fn drop(&mut self) {
        unsafe { std::alloc::dealloc(self.0.as_mut_ptr(), Layout::from_size_align(self.0.len(), 4096).unwrap()) }
    }
}

fn script<A: LocalAlloc<'static>>(s: &Script, log: &mut Log, al: &'static A, data: usize, n: usize, own: std::ops::Range<usize>, space: &Space, level: impl Fn() -> usize, refuse: impl Fn(bool)) {
    let mut items: Vec<Option<(Box<dyn It>, usize, usize)>> = vec![];
    let mut ops = s.ops.clone();
    ops.push(Op { a: "end".into(), x: 0, y: 0, z: 0 });
    for op in &ops {
        let i = (op.x - 1) as usize;
        let mut r = "ok";
        let mut m = vec![];
        let g = call(0, || match op.a.as_str() {
            "write" | "init" | "push" | "drop" => {
                let live = i < items.len() && items[i].is_some();
                if !live {
                    r = "skip";
                    return;
                }
                match op.a.as_str() {
                    "push" => match items[i].as_mut().unwrap().0.push() {
                        None => r = "skip",
                        Some(Ok(())) => {}
                        Some(Err(id)) => {
                            r = "full";
                            m.push(id);
                        }
                    },
                    "drop" => {
                        let (it, p, q) = items[i].take().unwrap();
                        if let Err(it) = it.dropped() {
                            r = "skip";
                            items[i] = Some((it, p, q));
                        }
                    }
                    _ => {
                        if !items[i].as_mut().unwrap().0.write() {
                            r = "skip";
                        }
                    }
                }
            }
            "end" => {
                for x in items.iter_mut() {
                    if let Some((it, p, q)) = x.take() {
                        if let Err(it) = it.dropped() {
                            *x = Some((it, p, q));
                        }
                    }
                }
            }
            _ => {
                refuse(op.z != 0);
                match make(al, op) {
                    None => r = "none",
                    Some(it) => {
                        let p = it.place();
                        items.push(Some((it, p.addr, p.bytes)));
                    }
                }
            }
        });
        if g.res.is_none() {
            r = "panic";
        }
        let mut c = vec![];
        // nothing else than the memory is written
        let (lo, hi) = (own.start - space.0.as_ptr() as usize, own.end - space.0.as_ptr() as usize);
        let mut good = (0..lo).chain(hi..space.0.len()).all(|i| unsafe { (&space.0[i] as *const u8).read_volatile() } == 0x5A);
        for (it, a, b) in items.iter().flatten() {
            let p = it.place();
            // in place, a value that was initialized may occupy less
            good &= p.addr == *a && p.bytes <= *b && p.addr % p.align == 0 && p.addr != 0;
            c.extend(it.ids());
        }
        let making = !["write", "init", "push", "drop", "end"].contains(&op.a.as_str());
        let mut v = vec![good as i64, level() as i64];
        if making {
            let rl = if op.a == "rc" { with_ty!(op.x, T => Rc::<T>::layout()) } else { Layout::new::<()>() };
            if r == "ok" {
                let p = items.last().unwrap().as_ref().unwrap().0.place();
                let at = if p.bytes > 0 || (p.addr >= data && p.addr < data + n) { p.addr.wrapping_sub(data) as i64 } else { -1 };
                v.extend([at.clamp(-1000000, 1000000), p.bytes as i64, p.cap, p.len]);
            } else {
                v.extend([-1, 0, -2, -2]);
            }
            v.extend([rl.size() as i64, rl.align() as i64]);
        }
        log.event(op, &Obs { r, v, d: g.d, c, n: g.n, m, k: 1 });
    }
}

fn bump<const W: usize>(s: &Script, log: &mut Log) {
    type S<const W: usize> = Bump<[u64; W]>;
    // where the data is
    let twin: S<W> = Bump::uninit();
    let p = twin.alloc(Layout::new::<u64>()).unwrap();
    let off = p.as_ptr() as usize - &twin as *const _ as usize;
    let mut space = Space::new(W * 8);
    let data = space.0.as_mut_ptr() as usize + START + s.cfg[2] as usize;
    let b = (data - off) as *mut S<W>;
    unsafe { b.write(Bump::uninit()) };
    let al: &'static S<W> = unsafe { &*b };
    let start = al.level();
    let lv = |l: static_alloc::bump::Level| unsafe { std::mem::transmute_copy::<_, usize>(&l) };
    assert_eq!(size_of_val(&start), size_of::<usize>());
    script(s, log, al, data, W * 8, b as usize..b as usize + size_of::<S<W>>(), &space, || lv(al.level()), |_| {});
}

fn main() {
    drive(|s, log| match (s.cfg[0], s.cfg[1]) {
        (1, 8) => bump::<1>(s, log),
        (1, 32) => bump::<4>(s, log),
        (1, 96) => bump::<12>(s, log),
        (1, 240) => bump::<30>(s, log),
        (1, 640) => bump::<80>(s, log),
        (1, 20000) => bump::<2500>(s, log),
        (1, 80000) => bump::<10000>(s, log),
        (2, n) => {
            let mut space = Space::new(n as usize);
            let data = space.0.as_mut_ptr() as usize + START + s.cfg[2] as usize;
            let m: &'static Mock = Box::leak(Box::new(Mock { base: data, cap: n as usize, extra: s.cfg[3] as usize, at: Cell::new(0), refuse: Cell::new(false) }));
            script(s, log, m, data, n as usize, data..data + n as usize, &space, || m.at.get(), |r| m.refuse.set(r));
            unsafe { drop(Box::from_raw(m as *const Mock as *mut Mock)) };
        }
        c => panic!("no configuration {c:?}"),
    });
}
