//! Driver for the allocator interfaces. cfg = [kind, size, constructor]
use std::alloc::{GlobalAlloc, Layout};
use std::cell::{Cell, RefCell};
use std::mem::{size_of, MaybeUninit};
use std::ptr::NonNull;

use alloc_traits::util::defaults::local as defaults;
use alloc_traits::{AllocTime, Allocation, LocalAlloc, NonZeroLayout};
use static_alloc::bump::{Bump, Level};
use vh::*;

fn lv(l: Level) -> i64 {
    assert_eq!(size_of::<Level>(), size_of::<usize>());
    unsafe { std::mem::transmute_copy::<Level, usize>(&l) as i64 }
}
fn nz(l: Layout) -> NonZeroLayout {
    NonZeroLayout::from_layout(l.into()).unwrap()
}

const SPACE: usize = 1 << 16;
#[repr(align(4096))]
struct Arena(MaybeUninit<[u8; SPACE]>);

/// An allocator with nothing but alloc and dealloc.
struct Mock {
    base: usize,
    cap: usize,
    at: Cell<usize>,
    fail: Cell<bool>,
    allocs: RefCell<Vec<i64>>,
    frees: RefCell<Vec<i64>>,
    guards: RefCell<Vec<usize>>,
}
impl Mock {
    fn guards_ok(&self) -> bool {
        self.guards.borrow().iter().all(|g| (0..16).all(|i| unsafe { ((self.base + g + i) as *const u8).read_volatile() } == 0x5A))
    }
}
unsafe impl<'a> LocalAlloc<'a> for Mock {
    fn alloc(&'a self, layout: NonZeroLayout) -> Option<Allocation<'a>> {
        if self.fail.replace(false) {
            return None;
        }
        let (s, a) = (layout.size().get(), layout.align());
        let off = (self.at.get() + 16 + a - 1) / a * a;
        if off + s + 16 > self.cap {
            return None;
        }
        self.at.set(off + s);
        unsafe {
            std::ptr::write_bytes((self.base + off) as *mut u8, 0xA5, s);
            std::ptr::write_bytes((self.base + off - 16) as *mut u8, 0x5A, 16);
            std::ptr::write_bytes((self.base + off + s) as *mut u8, 0x5A, 16);
        }
        self.guards.borrow_mut().extend([off - 16, off + s]);
        self.allocs.borrow_mut().extend([s as i64, a as i64, off as i64]);
        Some(Allocation { ptr: NonNull::new((self.base + off) as *mut u8).unwrap(), layout, lifetime: AllocTime::default() })
    }
    unsafe fn dealloc(&'a self, al: Allocation<'a>) {
        self.frees.borrow_mut().extend([(al.ptr.as_ptr() as usize).wrapping_sub(self.base) as i64, al.layout.size().get() as i64, al.layout.align() as i64]);
        // what was given back is gone
        let off = (al.ptr.as_ptr() as usize).wrapping_sub(self.base);
        if off < self.cap && off + al.layout.size().get() <= self.cap {
            std::ptr::write_bytes(al.ptr.as_ptr(), 0xDD, al.layout.size().get());
        }
    }
}

enum Sub<const W: usize> {
    Global(*mut Bump<[u64; W]>),
    Local(*mut Bump<[u64; W]>),
    Mock(Mock),
    Dyn(Mock),
}

fn al<'a>(b: (usize, Layout)) -> Allocation<'a> {
    Allocation { ptr: NonNull::new(b.0 as *mut u8).unwrap(), layout: nz(b.1), lifetime: AllocTime::default() }
}
impl<const W: usize> Sub<W> {
    fn alloc(&self, l: Layout, zeroed: bool, alt: bool) -> Option<(usize, Layout)> {
        let g = |p: *mut u8| (!p.is_null()).then_some((p as usize, l));
        let h = |a: Option<Allocation>| a.map(|a| (a.ptr.as_ptr() as usize, Layout::from(a.layout)));
        match self {
            Sub::Global(b) => g(unsafe { if zeroed { GlobalAlloc::alloc_zeroed(&**b, l) } else { GlobalAlloc::alloc(&**b, l) } }),
            Sub::Local(b) => {
                let b = unsafe { &**b };
                h(match (zeroed, alt) {
                    (false, _) => LocalAlloc::alloc(b, nz(l)),
                    (_, true) => defaults::alloc_zeroed(b, nz(l)),
                    _ => LocalAlloc::alloc_zeroed(b, nz(l)),
                })
            }
            Sub::Mock(m) => h(match (zeroed, alt) {
                (false, _) => m.alloc(nz(l)),
                (_, true) => defaults::alloc_zeroed(m, nz(l)),
                _ => m.alloc_zeroed(nz(l)),
            }),
            Sub::Dyn(m) => {
                let m: &dyn LocalAlloc = m;
                h(match (zeroed, alt) {
                    (false, _) => m.alloc(nz(l)),
                    (_, true) => defaults::alloc_zeroed(m, nz(l)),
                    _ => m.alloc_zeroed(nz(l)),
                })
            }
        }
    }
    unsafe fn dealloc(&self, b: (usize, Layout)) {
        match self {
            Sub::Global(s) => GlobalAlloc::dealloc(&**s, b.0 as *mut u8, b.1),
            Sub::Local(s) => LocalAlloc::dealloc(&**s, al(b)),
            Sub::Mock(m) => m.dealloc(al(b)),
            Sub::Dyn(m) => m.dealloc(al(b)),
        }
    }
    unsafe fn realloc(&self, b: (usize, Layout), size: usize, align: usize, alt: bool) -> Option<(usize, Layout)> {
        let h = |a: Option<Allocation>| a.map(|a| (a.ptr.as_ptr() as usize, Layout::from(a.layout)));
        if let Sub::Global(s) = self {
            let p = GlobalAlloc::realloc(&**s, b.0 as *mut u8, b.1, size);
            return (!p.is_null()).then(|| (p as usize, Layout::from_size_align(size, b.1.align()).unwrap()));
        }
        let new = nz(Layout::from_size_align(size, align).ok()?);
        h(match self {
            Sub::Local(s) if alt && size > b.1.size() => defaults::realloc(&**s, al(b), new),
            Sub::Local(s) => LocalAlloc::realloc(&**s, al(b), new),
            Sub::Mock(m) if alt => defaults::realloc(m, al(b), new),
            Sub::Mock(m) => m.realloc(al(b), new),
            Sub::Dyn(m) => {
                let m: &dyn LocalAlloc = m;
                if alt { defaults::realloc(m, al(b), new) } else { m.realloc(al(b), new) }
            }
            _ => unreachable!(),
        })
    }
    fn mock(&self) -> Option<&Mock> {
        match self {
            Sub::Mock(m) | Sub::Dyn(m) => Some(m),
            _ => None,
        }
    }
}

fn size_of_arg(x: i64) -> usize {
    match x {
        1000000000 => isize::MAX as usize,
        999999999 => (isize::MAX as usize) & !63,
        x => x as usize,
    }
}

fn run<const W: usize>(s: &Script, log: &mut Log) {
    let mut arena = Box::new(Arena(MaybeUninit::uninit()));
    let mem = arena.0.as_mut_ptr() as usize;
    unsafe { std::ptr::write_bytes(mem as *mut u8, 0xC3, SPACE) };
    let mut off = 0;
    let sub: Sub<W> = match s.cfg[0] {
        1 | 2 => {
            let b = mem as *mut Bump<[u64; W]>;
            let pat = [0xF1F2F3F4F5F6F7F8u64; W];
            unsafe {
                b.write(Bump::new(pat));
                off = std::slice::from_raw_parts(mem as *const u8, size_of::<Bump<[u64; W]>>())
                    .windows(8 * W)
                    .position(|w| w == std::slice::from_raw_parts(pat.as_ptr() as *const u8, 8 * W))
                    .unwrap();
            }
            // the way it is constructed must not matter
            unsafe {
                match s.cfg[2] {
                    1 => b.write(Bump::zeroed()),
                    2 => b.write(Bump::uninit()),
                    _ => {}
                }
            }
            if s.cfg[0] == 1 { Sub::Global(b) } else { Sub::Local(b) }
        }
        k => {
            let m = Mock {
                base: mem,
                cap: (s.cfg[1] as usize * 3).min(SPACE),
                at: Cell::new(0),
                fail: Cell::new(false),
                allocs: RefCell::default(),
                frees: RefCell::default(),
                guards: RefCell::default(),
            };
            if k == 3 { Sub::Mock(m) } else { Sub::Dyn(m) }
        }
    };
    let mut bl: Vec<Option<(usize, Layout)>> = vec![];
    let mut stamp = 1usize;
    let mut ops = s.ops.clone();
    ops.push(Op { a: "end".into(), x: 0, y: 0, z: 0 });
    for (k, op) in ops.iter().enumerate() {
        let mut r = "ok";
        let level = match &sub {
            Sub::Global(b) | Sub::Local(b) => lv(unsafe { &**b }.level()),
            _ => 0,
        };
        let mut p = -1i64;
        let mut name = op.clone();
        if let Some(m) = sub.mock() {
            m.allocs.borrow_mut().clear();
            m.frees.borrow_mut().clear();
            m.fail.set(op.z >= 10000 && op.a != "dealloc");
        }
        let alt = k % 3 == 2;
        let idx = (op.x - 1) as usize;
        let need = matches!(op.a.as_str(), "realloc" | "dealloc" | "fill");
        if need && bl.get(idx).copied().flatten().is_none() {
            name.a = "skip".into();
        } else {
            let g = call(0, || match op.a.as_str() {
                "alloc" | "zeroed" => {
                    let res = sub.alloc(Layout::from_size_align(op.x as usize, op.y as usize).unwrap(), op.a == "zeroed", alt);
                    match res {
                        Some(b) => p = b.0.wrapping_sub(mem) as i64,
                        None => r = "null",
                    }
                    if let Some(b) = res {
                        if b.1.size() < op.x as usize || b.1.align() < op.y as usize {
                            r = "short";
                        }
                    }
                    bl.push(res.map(|b| (b.0, Layout::from_size_align(op.x as usize, op.y as usize).unwrap())));
                }
                "realloc" => {
                    let b = bl[idx].unwrap();
                    let (ns, na) = (size_of_arg(op.y), (op.z % 10000) as usize);
                    match unsafe { sub.realloc(b, ns, na, alt) } {
                        Some(n) => {
                            p = n.0.wrapping_sub(mem) as i64;
                            if n.1.size() < ns || n.1.align() < na {
                                r = "short";
                            }
                            bl[idx] = Some((n.0, Layout::from_size_align(ns, na).unwrap()));
                        }
                        None => r = "null",
                    }
                }
                "dealloc" => unsafe { sub.dealloc(bl[idx].take().unwrap()) },
                "fill" => {
                    let b = bl[idx].unwrap();
                    for i in 0..b.1.size() {
                        unsafe { ((b.0 + i) as *mut u8).write_volatile(((stamp * 16 + i + 1) % 251) as u8) };
                    }
                    stamp += 1;
                }
                "reset" => {
                    bl.iter_mut().for_each(|b| *b = None);
                    if let Sub::Global(b) | Sub::Local(b) = &sub {
                        unsafe { (**b).reset() };
                    }
                }
                "end" => (),
                o => panic!("script error {o}"),
            });
            if g.res.is_none() {
                r = "panic";
            }
        }
        let mut c = vec![];
        for b in bl.iter().flatten() {
            // never look outside
            if b.0 >= mem && b.1.size() <= SPACE && b.0 + b.1.size() <= mem + SPACE {
                c.extend((0..b.1.size()).map(|i| unsafe { ((b.0 + i) as *const u8).read_volatile() } as i64));
            }
        }
        let (n, m, k) = match sub.mock() {
            Some(m) => (m.allocs.borrow().clone(), m.frees.borrow().clone(), m.guards_ok() as i64),
            None => (vec![], vec![], 1),
        };
        log.event(&name, &Obs { r, v: vec![p, off as i64, 8 * W as i64, level], d: vec![], c, n, m, k });
    }
}

fn main() {
    drive(|s, log| match s.cfg[1] {
        16 => run::<2>(s, log),
        64 => run::<8>(s, log),
        20000 => run::<2500>(s, log),
        _ => run::<20>(s, log),
    });
}
