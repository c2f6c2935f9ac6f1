//! Driver for static_alloc::unsync::{Bump, MemBump}. For cfg see specs/MemBump.tla.
use std::alloc::Layout;
use std::sync::atomic::{AtomicI64, Ordering::SeqCst};
use std::mem::{size_of, size_of_val, MaybeUninit};

use static_alloc::bump::{Failure, Level};
use static_alloc::leaked::LeakBox;
use static_alloc::unsync::{Bump, MemBump};
use vh::track::{self, Ev, Mode};
use vh::*;

#[global_allocator]
static A: track::Track = track::Track;

#[repr(align(64))]
pub struct A64([u8; 64]);
#[repr(align(16))]
pub struct A16([u8; 48]);
#[repr(align(16))]
pub struct Q16([u8; 16]);
#[repr(align(4))]
pub struct Q4([u8; 4]);

macro_rules! with_st {
    ($i:expr, $T:ident => $body:expr) => {
        match $i {
            1 => { type $T = [u8; 1]; $body }
            2 => { type $T = [u8; 16]; $body }
            3 => { type $T = [u64; 5]; $body }
            4 => { type $T = A64; $body }
            5 => { type $T = (); $body }
            6 => { type $T = [u8; 41]; $body }
            7 => { type $T = A16; $body }
            8 => { type $T = [u8; 100]; $body }
            9 => { type $T = [u64; 3]; $body }
            10 => { type $T = Q4; $body }
            11 => { type $T = [u8; 100_000]; $body }
            o => panic!("no storage type {o}"),
        }
    };
}

/// Sizes, offsets and levels in a large block are counted in this many bytes.
static UNIT: AtomicI64 = AtomicI64::new(1);
fn unit() -> i64 {
    UNIT.load(SeqCst)
}
fn scale(n: i64) -> i64 {
    let u = unit();
    if n == -1 {
        n
    } else if n % u == 0 {
        n / u
    } else {
        -99
    }
}
fn lv(l: Level) -> i64 {
    assert_eq!(size_of::<Level>(), size_of::<usize>());
    scale(unsafe { std::mem::transmute_copy::<Level, usize>(&l) as i64 })
}

/// Memory in which every address modulo 65536 can be had.
const ARENA: Layout = unsafe { Layout::from_size_align_unchecked(1 << 18, 1 << 16) };
struct Arena(*mut u8);
impl Drop for Arena {
    fn drop(&mut self) {
        unsafe { std::alloc::dealloc(self.0, ARENA) }
    }
}

struct Cx<'s, 'l> {
    it: std::slice::Iter<'s, Op>,
    log: &'l mut Log,
    seen: Vec<Level>,
    /// level before, request, for re-deriving
    al: Vec<(Level, i64)>,
}

struct R(&'static str, i64, i64, i64);

fn sees(seen: &mut Vec<Level>, l: Level) {
    if seen.first() != Some(&l) {
        seen.insert(0, l);
        seen.truncate(3);
    }
}

fn fail(f: Failure) -> R {
    match f {
        Failure::Exhausted => R("exh", -1, -1, 0),
        Failure::Mismatch { observed } => R("mis", -1, lv(observed), 0),
    }
}

const HUGE: usize = isize::MAX as usize & !4095;

fn request(b: &mut MemBump, q: i64, at: Level) -> R {
    let data = b.data_ptr().as_ptr() as i64;
    let lay = |s, a| Layout::from_size_align(s, a).unwrap();
    let alloc = |b: &MemBump, s, a| match b.alloc(lay(s, a)) {
        Some(x) => R("ok", x.as_ptr() as i64 - data, -1, 0),
        None => R("exh", -1, -1, 0),
    };
    macro_rules! off {
        ($V:ty, $p:expr) => {{
            let p = $p as *const $V as usize;
            assert_eq!(p % std::mem::align_of::<$V>(), 0, "misaligned");
            if size_of::<$V>() == 0 { -1 } else { p as i64 - data }
        }};
    }
    macro_rules! get {
        ($V:ty) => {
            match b.get::<$V>() {
                Some(x) => R("ok", off!($V, x.ptr.as_ptr()), lv(x.level), 0),
                None => R("exh", -1, -1, 0),
            }
        };
    }
    macro_rules! get_at {
        ($V:ty) => {
            match b.get_at::<$V>(at) {
                Ok(x) => R("ok", off!($V, x.ptr.as_ptr()), lv(x.level), 0),
                Err(f) => fail(f),
            }
        };
    }
    macro_rules! bbox {
        ($V:ty) => {
            match b.bump_box::<$V>() {
                Ok(mut x) => R("ok", off!($V, x.as_mut_ptr()), -1, 0),
                Err(f) => fail(f),
            }
        };
    }
    macro_rules! array {
        ($V:ty, $n:expr) => {
            match b.bump_array::<$V>($n) {
                Ok(mut x) => {
                    let n = x.len();
                    let o = off!($V, x.as_mut_ptr());
                    R("ok", if n == 0 { -1 } else { o }, -1, n as i64)
                }
                Err(f) => fail(f),
            }
        };
    }
    match q {
        1 => alloc(b, 1, 1),
        2 => alloc(b, 8, 8),
        3 => get!(T7),
        4 => get!(T2),
        5 => get!(T6),
        6 => bbox!(T4),
        7 => bbox!(T5),
        8 => match b.alloc_at(lay(8, 8), at) {
            Ok(x) => R("ok", x.as_ptr() as i64 - data, -1, 0),
            Err(f) => fail(f),
        },
        9 => get_at!(T8),
        10 => get_at!(T5),
        11 => get_at!(T9),
        12 => array!(u32, 3),
        13 => array!(u64, 0),
        14 => array!(T6, 5),
        15 => array!(u64, usize::MAX / 4),
        16 => { let l = b.level(); R("ok", -1, lv(l), 0) }
        20 => alloc(b, 3, 32),
        21 => alloc(b, HUGE, 1),
        22 => array!(T10, 3),
        23 => array!(T5, usize::MAX),
        24 => get!(T1),
        25 => alloc(b, 1, 8192),
        26 => alloc(b, 16, 65536),
        27 => match b.alloc_at(lay(3, 32768), at) {
            Ok(x) => R("ok", x.as_ptr() as i64 - data, -1, 0),
            Err(f) => fail(f),
        },
        28 => alloc(b, 30 * unit() as usize, 1),
        29 => match b.alloc_at(lay(7 * unit() as usize, 1), at) {
            Ok(x) => R("ok", x.as_ptr() as i64 - data, -1, 0),
            Err(f) => fail(f),
        },
        30 => match b.bump_array::<T1>(20 * unit() as usize) {
            Ok(x) => R("ok", x.as_ptr() as i64 - data, -1, x.len() as i64 / unit()),
            Err(f) => fail(f),
        },
        32 => array!(u64, usize::MAX / 8 + 2),
        33 => array!(T10, usize::MAX / 3 + 2),
        34 => array!(u16, isize::MAX as usize / 2 + 1),
        31 => alloc(b, unit() as usize, 1),
        35 => alloc(b, 16, 128),
        36 => alloc(b, 1, 256),
        37 => alloc(b, 3, 512),
        38 | 47 => match b.alloc_at(if q == 38 { lay(8, 1024) } else { lay(5001, 16) }, at) {
            Ok(x) => R("ok", x.as_ptr() as i64 - data, -1, 0),
            Err(f) => fail(f),
        },
        39 => alloc(b, 1, 2048),
        40 => alloc(b, 7, 16384),
        41 => array!(u8, 257),
        42 => array!(u16, 2501),
        43 => array!(u64, 700),
        44 => get!([u64; 125]),
        45 => bbox!([u16; 2049]),
        46 => alloc(b, 33333, 4),
        48 => get_at!([u16; 385]),
        49 => array!(u8, 65537),
        50 => array!(T9, 0),
        51 => array!(T6, 0),
        52 => bbox!(T6),
        53 => get_at!(T6),
        54 => get!(Wide),
        55 => get_at!(Wide),
        56 => bbox!(Wide),
        57 => array!(Wide, 3),
        58 => get_at!([u8; 5000]),
        59 => match b.alloc_at(lay(10000, 4096), at) {
            Ok(x) => R("ok", x.as_ptr() as i64 - data, -1, 0),
            Err(f) => fail(f),
        },
        o => panic!("no request {o}"),
    }
}

fn nothing<V>(p: *const V) -> i64 {
    assert_eq!(p as usize % std::mem::align_of::<V>(), 0, "misaligned");
    -1
}

/// A type that is large and much aligned.
#[repr(align(2048))]
#[allow(dead_code)]
struct Wide([u16; 2048]);

fn redo(b: &MemBump, q: i64, at: Level) -> i64 {
    let data = b.data_ptr().as_ptr() as i64;
    let p = unsafe {
        match q {
            3 => b.get_unchecked::<T7>(at).ptr.as_ptr() as i64,
            4 => b.get_unchecked::<T2>(at).ptr.as_ptr() as i64,
            9 => b.get_unchecked::<T8>(at).ptr.as_ptr() as i64,
            11 => b.get_unchecked::<T9>(at).ptr.as_ptr() as i64,
            24 => b.get_unchecked::<T1>(at).ptr.as_ptr() as i64,
            44 => b.get_unchecked::<[u64; 125]>(at).ptr.as_ptr() as i64,
            54 | 55 => b.get_unchecked::<Wide>(at).ptr.as_ptr() as i64,
            58 => b.get_unchecked::<[u8; 5000]>(at).ptr.as_ptr() as i64,
            48 => b.get_unchecked::<[u16; 385]>(at).ptr.as_ptr() as i64,
            5 | 53 => return nothing(b.get_unchecked::<T6>(at).ptr.as_ptr()),
            10 => return nothing(b.get_unchecked::<T5>(at).ptr.as_ptr()),
            o => panic!("request {o} is not typed"),
        }
    };
    p - data
}

impl<'s> Cx<'s, '_> {
    fn put(&mut self, op: &Op, b: &MemBump, r: R) {
        let v = vec![scale(r.1), r.2, lv(b.level()), scale(b.capacity() as i64), r.3];
        self.log.event(op, &Obs { r: r.0, v, k: 1, ..Default::default() });
        if op.a == "r" {
            sees(&mut self.seen, b.level());
        }
    }
    /// Runs until an operation that consumes the allocator.
    fn on(&mut self, b: &mut MemBump) -> Option<&'s Op> {
        while let Some(op) = self.it.next() {
            if op.a == "redo" {
                // the script may assume another address of the heap block
                let Some(&(l, q)) = self.al.get(op.x as usize - 1) else { continue };
                let g = call(0, || redo(b, q, l));
                self.put(op, b, match g.res { Some(o) => R("ok", o, -1, 0), None => R("panic", 0, 0, 0) });
                continue;
            }
            if op.a == "start" {
                continue;
            }
            match op.y {
                18 | 19 => return Some(op),
                17 => {
                    b.reset();
                    self.seen.clear();
                    self.al.clear();
                    self.put(op, b, R("ok", -1, -1, 0));
                }
                q => {
                    let before = b.level();
                    let at = self.seen[(op.z as usize).min(self.seen.len() - 1)];
                    let p: *mut MemBump = b;
                    let g = call(0, || request(unsafe { &mut *p }, q, at));
                    let r = g.res.unwrap_or(R("panic", 0, 0, 0));
                    if r.0 == "ok" && matches!(q, 3 | 4 | 5 | 9 | 10 | 11 | 24 | 44 | 48 | 53..=55 | 58) {
                        self.al.insert(0, (before, q));
                        self.al.truncate(3);
                    }
                    self.put(op, b, r);
                }
            }
        }
        None
    }
}

fn run(s: &Script, log: &mut Log) {
    let (kind, a, b, c) = (s.cfg[0], s.cfg[1], s.cfg[2], s.cfg[3]);
    let arena = Arena(unsafe { std::alloc::alloc(ARENA) });
    let base = arena.0 as usize;
    UNIT.store(if kind == 4 { 1 << 26 } else { 1 }, SeqCst);
    if kind < 3 {
        unsafe { std::ptr::write_bytes((base + b as usize) as *mut u8, 0xEE, if a == 11 || a > 1000 { 101_000 } else { 1024 }) };
    }
    let start = Op { a: "start".into(), x: 0, y: 0, z: 0 };
    let end = Op { a: "end".into(), x: 0, y: 0, z: 0 };
    let mut cx = Cx { it: s.ops.iter(), log, seen: vec![], al: vec![] };
    match kind {
        1 => with_st!(a, T => {
            let p = (base + b as usize) as *mut Bump<T>;
            assert_eq!(p as usize % std::mem::align_of::<Bump<T>>(), 0, "bad address");
            unsafe { std::ptr::write(p, if c == 1 { Bump::zeroed() } else { Bump::uninit() }) };
            let bump = unsafe { &mut *p };
            let mb: &mut MemBump = bump;
            let at = mb.data_ptr().as_ptr() as usize - base;
            cx.log.begin_cfg(&s.id, &[kind, a, at as i64 - 8, c]);
            // Nothing beyond the object may be handed out.
            assert!(at + mb.capacity() <= b as usize + size_of::<Bump<T>>());
            cx.put(&start, mb, R("ok", 0, -1, 0));
            cx.seen = vec![mb.level()];
            cx.on(mb);
        }),
        2 => {
            cx.log.begin_cfg(&s.id, &s.cfg);
            let mem: &mut [MaybeUninit<u8>] = unsafe { std::slice::from_raw_parts_mut((base + b as usize) as *mut MaybeUninit<u8>, a as usize) };
            let g = call(0, || MemBump::from_mem(mem).ok());
            let Some(mut lb) = g.res.flatten() else {
                cx.log.event(&start, &Obs { r: "err", v: vec![0; 5], k: 1, ..Default::default() });
                cx.log.event(&end, &Obs { r: "ok", k: 1, ..Default::default() });
                cx.log.end();
                return;
            };
            let want = (base + b as usize + 7) & !7;
            let mut first = R("ok", (&*lb as *const MemBump as *const u8 as usize - want) as i64, -1, 0);
            if size_of_val(&*lb) + (want - base - b as usize) > a as usize {
                first.1 = -100; // larger than the memory
            }
            cx.put(&start, &lb, first);
            cx.seen = vec![lb.level()];
            while let Some(op) = cx.on(&mut lb) {
                let mem = MemBump::into_mem(lb);
                let off = mem.as_ptr() as usize as i64 - want as i64;
                let len = mem.len() as i64;
                lb = if op.y == 18 {
                    unsafe { MemBump::from_mem_unchecked(mem) }
                } else {
                    cx.seen.clear();
                    cx.al.clear();
                    MemBump::from_mem(mem).unwrap()
                };
                let b: &MemBump = &lb;
                let b: *const MemBump = b;
                cx.put(op, unsafe { &*b }, R("ok", off, -1, len));
            }
        }
        _ => {
            let mode = if kind == 4 { Mode::Count } else { Mode::Full };
            track::offset((b - 8).max(0) as usize);
            track::counts();
            let mut mb = track::tracked(mode, || MemBump::new((a * unit()) as usize));
            let cfg = [kind, a, if kind == 4 { 0 } else { (mb.data_ptr().as_ptr() as usize % 65536) as i64 }, 0];
            cx.log.begin_cfg(&s.id, &cfg);
            cx.put(&start, &mb, R("ok", 0, -1, 0));
            cx.seen = vec![mb.level()];
            cx.on(&mut mb);
            // its memory goes back, just as it was obtained
            track::tracked(mode, || drop(mb));
            let back = if kind == 4 {
                let (n, m, x, y) = track::counts();
                n == 1 && m == 1 && x == y && x >= (a * unit()) as usize
            } else {
                matches!(track::events()[..], [Ev::Alloc { id: 1, size, .. }, Ev::Free { id: 1, same: true }] if size >= a as usize + 8)
                    && track::guards()
            };
            track::clear();
            cx.log.event(&end, &Obs { r: if back { "ok" } else { "lost" }, k: 1, ..Default::default() });
            cx.log.end();
            return;
        }
    }
    cx.log.event(&end, &Obs { r: "ok", k: 1, ..Default::default() });
    cx.log.end();
}

fn main() {
    drive_many(|s, log| {
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| run(s, log)));
        if r.is_err() {
            log.line("X");
            log.end();
        }
    });
}
