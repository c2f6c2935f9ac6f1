//! Driver for the bytes behind the bump allocators. cfg = [kind, ctor, size, storage type]
use std::alloc::Layout;
use std::mem::{size_of, MaybeUninit};

use static_alloc::bump::{Bump, Level};
use static_alloc::unsync;
use vh::*;

#[derive(Clone, Copy)]
#[repr(align(64))]
struct A64([u8; 64]);
#[derive(Clone, Copy)]
#[repr(align(16))]
struct A16([u8; 48]);

fn lv(l: Level) -> i64 {
    assert_eq!(size_of::<Level>(), size_of::<usize>());
    unsafe { std::mem::transmute_copy::<Level, usize>(&l) as i64 }
}
fn pattern(i: usize) -> u8 {
    (i * 7 + 129) as u8
}

trait Subject {
    fn level(&self) -> i64;
    fn alloc(&self, l: Layout, how: usize) -> Option<*mut u8>;
    fn reset(&mut self);
}
impl<S> Subject for Bump<S> {
    fn level(&self) -> i64 {
        lv(Bump::level(self))
    }
    fn alloc(&self, l: Layout, how: usize) -> Option<*mut u8> {
        if (l.size(), l.align()) == (8, 8) && how % 3 == 0 {
            return self.get::<u64>().map(|a| a.ptr.as_ptr() as *mut u8);
        }
        match how % 5 {
            0 => Bump::alloc(self, l).map(|p| p.as_ptr()),
            1 => self.get_layout(l).map(|a| a.ptr.as_ptr()),
            2 => self.get_layout_at(l, Bump::level(self)).ok().map(|a| a.ptr.as_ptr()),
            3 => {
                let p = unsafe { std::alloc::GlobalAlloc::alloc(self, l) };
                (!p.is_null()).then_some(p)
            }
            _ => alloc_traits::LocalAlloc::alloc(self, alloc_traits::NonZeroLayout::from_layout(l.into()).unwrap()).map(|a| a.ptr.as_ptr()),
        }
    }
    fn reset(&mut self) {
        Bump::reset(self)
    }
}
impl Subject for unsync::MemBump {
    fn level(&self) -> i64 {
        lv(unsync::MemBump::level(self))
    }
    fn alloc(&self, l: Layout, how: usize) -> Option<*mut u8> {
        if (l.size(), l.align()) == (8, 8) && how % 2 == 0 {
            return self.get::<u64>().map(|a| a.ptr.as_ptr() as *mut u8);
        }
        if l.align() == 1 && how % 2 == 0 {
            return self.bump_array::<u8>(l.size()).ok().map(|b| static_alloc::leaked::LeakBox::leak(b).as_mut_ptr() as *mut u8);
        }
        match how % 2 {
            0 => unsync::MemBump::alloc(self, l).map(|p| p.as_ptr()),
            _ => self.alloc_at(l, unsync::MemBump::level(self)).ok().map(|a| a.as_ptr()),
        }
    }
    fn reset(&mut self) {
        unsync::MemBump::reset(self)
    }
}

fn ops<B: Subject + ?Sized>(s: &Script, log: &mut Log, b: *mut B, base: *mut u8, n: usize) {
    let bytes = || -> Vec<i64> { (0..n).map(|i| unsafe { std::ptr::read_volatile(base.add(i)) } as i64).collect() };
    let mut al: Vec<(i64, usize)> = vec![];
    let mut stamp = 1;
    let ob = |r, v, c| Obs { r, v, c, k: 1, ..Default::default() };
    let op0 = |a: &str| Op { a: a.into(), x: 0, y: 0, z: 0 };
    log.event(&op0("start"), &ob("ok", vec![unsafe { &*b }.level(), n as i64], bytes()));
    for (how, op) in s.ops.iter().enumerate() {
        let mut r = "ok";
        let mut v = (-1i64, 0usize);
        let g = call(0, || match op.a.as_str() {
            "alloc" | "rest" => {
                let l = if op.a == "alloc" { (op.x as usize, op.y as usize) } else { (n - unsafe { &*b }.level() as usize, 1) };
                if l.0 == 0 {
                    r = "none";
                } else {
                    match unsafe { &*b }.alloc(Layout::from_size_align(l.0, l.1).unwrap(), how) {
                        Some(p) => v = ((p as i64).wrapping_sub(base as i64), l.0),
                        None => r = "none",
                    }
                }
                al.push(v);
            }
            "write" => match al.get(op.x as usize - 1) {
                Some(&(off, m)) if off >= 0 && off as usize + m <= n => {
                    for i in 0..m {
                        unsafe { std::ptr::write_volatile(base.add(off as usize + i), ((stamp * 16 + i) % 251) as u8) };
                    }
                }
                _ => r = "skip",
            },
            "reset" => {
                unsafe { (*b).reset() };
                al.clear();
            }
            o => panic!("script error {o}"),
        });
        if op.a == "write" {
            stamp += 1;
        }
        if g.res.is_none() {
            r = "panic";
        }
        log.event(op, &ob(r, vec![unsafe { &*b }.level(), v.0, v.1 as i64], bytes()));
    }
    log.event(&op0("end"), &ob("ok", vec![], bytes()));
}

#[repr(align(4096))]
struct Arena4k(MaybeUninit<[u8; SPACE]>);
const SPACE: usize = 16384;

fn run<S: Copy + 'static>(s: &Script, log: &mut Log) {
    let mut arena = Box::new(Arena4k(MaybeUninit::uninit()));
    let mem = arena.0.as_mut_ptr() as *mut u8;
    unsafe { std::ptr::write_bytes(mem, 0xEE, SPACE) };
    let storage = || unsafe {
        let mut t = MaybeUninit::<S>::uninit();
        for i in 0..size_of::<S>() {
            (t.as_mut_ptr() as *mut u8).add(i).write(pattern(i));
        }
        t.assume_init()
    };
    match s.cfg[0] {
        1 => unsafe {
            let b = mem as *mut Bump<S>;
            // find the storage
            b.write(Bump::new(storage()));
            let n = size_of::<S>();
            let all = std::slice::from_raw_parts(mem, size_of::<Bump<S>>());
            let off = all.windows(n.max(1)).position(|w| (0..n).all(|i| w[i] == pattern(i))).unwrap_or(0);
            if s.cfg[1] != 2 {
                std::ptr::write_bytes(mem, 0xEE, SPACE);
                b.write(if s.cfg[1] == 0 { Bump::uninit() } else { Bump::zeroed() });
            }
            ops(s, log, b, mem.add(off), n);
        },
        2 => unsafe {
            let b = mem as *mut unsync::Bump<S>;
            b.write(if s.cfg[1] == 0 { unsync::Bump::uninit() } else { unsync::Bump::zeroed() });
            let m: &mut unsync::MemBump = &mut *b;
            let base = m.data_ptr().as_ptr();
            let n = m.capacity();
            ops(s, log, m as *mut unsync::MemBump, base, n);
        },
        _ => unsafe {
            let n = s.cfg[2] as usize;
            for i in 0..n {
                mem.add(8 + i).write(pattern(i));
            }
            let m = std::slice::from_raw_parts_mut(mem as *mut MaybeUninit<u8>, 8 + n);
            let mut b = unsync::MemBump::from_mem(m).unwrap();
            let base = b.data_ptr().as_ptr();
            let n = b.capacity();
            ops(s, log, &mut *b as *mut unsync::MemBump, base, n);
        },
    }
}

fn main() {
    drive(|s, log| match s.cfg[3] {
        1 => run::<[u8; 1]>(s, log),
        2 => run::<[u8; 16]>(s, log),
        3 => run::<[u64; 5]>(s, log),
        4 => run::<A64>(s, log),
        5 => run::<()>(s, log),
        6 => run::<[u8; 41]>(s, log),
        7 => run::<A16>(s, log),
        9 => run::<[u64; 3]>(s, log),
        10 => run::<[u8; 5001]>(s, log),
        11 => run::<[u64; 300]>(s, log),
        12 => run::<[u16; 129]>(s, log),
        o => panic!("no storage type {o}"),
    });
}
