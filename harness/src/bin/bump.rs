//! Driver for static_alloc::Bump, with an interleaving explorer.
//! cfg = [storage type, wanted address of the storage modulo 65536, constructor]
//! Operations: `r thread request selector`; thread 0 runs before the others, thread 9 after them.
use std::alloc::Layout;
use std::collections::HashSet;
use std::mem::{forget, size_of, MaybeUninit};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicI64, Ordering::SeqCst};
use std::sync::{Arc, Condvar, Mutex};

use alloc_traits::{LocalAlloc, NonZeroLayout};
use static_alloc::{bump::{Failure, Level}, Bump};
use vh::*;

#[derive(Clone, Copy)]
#[repr(align(64))]
struct A64([u8; 64]);
#[derive(Clone, Copy)]
#[repr(align(16))]
struct A16([u8; 48]);

macro_rules! with_st {
    ($i:expr, $T:ident => $body:expr) => {
        match $i {
            1 => { type $T = [u8; 1]; $body }
            2 => { type $T = [u8; 16]; $body }
            3 => { type $T = [u64; 5]; $body }
            4 => { type $T = A64; $body }
            5 => { type $T = (); $body }
            6 => { type $T = [u8; 41]; $body }
            7 => { type $T = A16; $body }
            8 => { type $T = [u8; 100]; $body }
            9 => { type $T = [u64; 3]; $body }
            10 => { type $T = [u8; 100 << 12]; $body }
            11 => { type $T = [u8; 100_000]; $body }
            o => panic!("no storage type {o}"),
        }
    };
}

/// Sizes, offsets and levels in a large storage are counted in this many bytes.
static UNIT: AtomicI64 = AtomicI64::new(1);
fn unit() -> i64 {
    UNIT.load(SeqCst)
}
fn scale(n: i64) -> i64 {
    let u = unit();
    if n % u == 0 { n / u } else { -99 }
}
fn lv(l: Level) -> i64 {
    assert_eq!(size_of::<Level>(), size_of::<usize>());
    scale(unsafe { std::mem::transmute_copy::<Level, usize>(&l) as i64 })
}

/// result, address, level
struct Res(&'static str, i64, i64, Option<Level>);

fn fail(f: Failure) -> Res {
    match f {
        Failure::Exhausted => Res("exh", -1, -1, None),
        Failure::Mismatch { observed } => Res("mis", -1, lv(observed), Some(observed)),
    }
}

const HUGE: usize = isize::MAX as usize & !4095;

/// A block that is reallocated by the next request.
const OLD: [u8; 3] = [0xA5, 0x5A, 0xC3];

fn exec<T>(b: &Bump<T>, q: i64, at: Level, own: usize) -> Res {
    let lay = |s, a| Layout::from_size_align(s, a).unwrap();
    let get_layout = |s, a| match b.get_layout(lay(s, a)) {
        Some(x) => Res("ok", x.ptr.as_ptr() as i64, lv(x.level), Some(x.level)),
        None => Res("exh", -1, -1, None),
    };
    let raw = |p: *mut u8| if p.is_null() { Res("exh", -1, -1, None) } else { Res("ok", p as i64, -1, None) };
    // the value at the place must be the one that was leaked
    fn check<V: El>(v: &mut V, id: i64) {
        assert_eq!(v.id(), id);
    }
    macro_rules! get {
        ($V:ty) => {
            match b.get::<$V>() {
                Some(x) => Res("ok", if <$V>::ZST { -1 } else { x.ptr.as_ptr() as i64 }, lv(x.level), Some(x.level)),
                None => Res("exh", -1, -1, None),
            }
        };
    }
    macro_rules! get_at {
        ($V:ty) => {
            match b.get_at::<$V>(at) {
                Ok(x) => Res("ok", if <$V>::ZST { -1 } else { x.ptr.as_ptr() as i64 }, lv(x.level), Some(x.level)),
                Err(f) => fail(f),
            }
        };
    }
    macro_rules! leak {
        ($V:ty) => {{
            let id = if <$V>::ZST { 0 } else { 77 };
            match b.leak(<$V>::with_id(id)) {
                Ok(x) => { check(x, id); Res("ok", if <$V>::ZST { -1 } else { x as *mut _ as i64 }, -1, None) }
                Err(e) => { let k = e.kind(); forget(e.into_inner()); fail(k) }
            }
        }};
    }
    macro_rules! leak_at {
        ($V:ty) => {{
            let id = if <$V>::ZST { 0 } else { 77 };
            match b.leak_at(<$V>::with_id(id), at) {
                Ok((x, l)) => { check(x, id); Res("ok", if <$V>::ZST { -1 } else { x as *mut _ as i64 }, lv(l), Some(l)) }
                Err(e) => { let k = e.kind(); forget(e.into_inner()); fail(k) }
            }
        }};
    }
    match q {
        1 => get_layout(1, 1),
        2 => raw(b.alloc(lay(8, 8)).map_or(std::ptr::null_mut(), |p| p.as_ptr())),
        3 => get!(T7),
        4 => leak!(T4),
        5 => match b.leak_box(T2::with_id(77)) {
            Some(mut x) => { check(&mut *x, 77); let p = &mut *x as *mut _ as i64; forget(x); Res("ok", p, -1, None) }
            None => Res("exh", -1, -1, None),
        },
        6 => raw(unsafe { std::alloc::GlobalAlloc::alloc(b, lay(2, 2)) }),
        7 => {
            let l = NonZeroLayout::from_layout(lay(3, 1).into()).unwrap();
            match LocalAlloc::alloc(b, l) {
                Some(a) => Res("ok", a.ptr.as_ptr() as i64, -1, None),
                None => Res("exh", -1, -1, None),
            }
        }
        8 => get!(T5),
        9 => match b.get_layout_at(lay(8, 8), at) {
            Ok(x) => Res("ok", x.ptr.as_ptr() as i64, lv(x.level), Some(x.level)),
            Err(f) => fail(f),
        },
        10 => leak_at!(T1),
        11 => match b.leak_box_at(T3::with_id(77), at) {
            Ok(mut x) => { check(&mut *x, 77); let p = &mut *x as *mut _ as i64; forget(x); Res("ok", p, -1, None) }
            Err(f) => fail(f),
        },
        12 => match b.alloc_at(lay(4, 4), at) {
            Ok(x) => Res("ok", x.ptr.as_ptr() as i64, lv(x.level), Some(x.level)),
            Err(f) => fail(f),
        },
        13 => get_at!(T8),
        14 => get_at!(T6),
        15 => { let l = b.level(); Res("ok", -1, lv(l), Some(l)) }
        17 => get_layout(5, 32),
        18 => get_layout(200, 1),
        19 => leak!(T5),
        20 => leak_at!(T5),
        21 => get_layout(HUGE, 1),
        22 => get_layout(1, 4096),
        23 => get!(T9),
        24 => get_layout(1, 8192),
        25 => get_layout(16, 65536),
        26 => match b.get_layout_at(lay(3, 32768), at) {
            Ok(x) => Res("ok", x.ptr.as_ptr() as i64, lv(x.level), Some(x.level)),
            Err(f) => fail(f),
        },
        27 => get_layout(30 * unit() as usize, 1),
        28 => match b.get_layout_at(lay(7 * unit() as usize, 1), at) {
            Ok(x) => Res("ok", x.ptr.as_ptr() as i64, lv(x.level), Some(x.level)),
            Err(f) => fail(f),
        },
        29 => raw(b.alloc(lay(unit() as usize, 1)).map_or(std::ptr::null_mut(), |p| p.as_ptr())),
        30 => raw(unsafe { std::alloc::GlobalAlloc::alloc(b, lay(20 * unit() as usize, 1)) }),
        31 => match b.alloc_at(lay(2 * unit() as usize, 1), at) {
            Ok(x) => Res("ok", x.ptr.as_ptr() as i64, lv(x.level), Some(x.level)),
            Err(f) => fail(f),
        },
        32 | 34 => {
            let new = if q == 32 { 10 } else { 1 };
            let p = unsafe { std::alloc::GlobalAlloc::realloc(b, own as *mut u8, lay(2, 2), new) };
            assert!(p.is_null() || unsafe { std::slice::from_raw_parts(p, new.min(2)) } == &OLD[..new.min(2)]);
            raw(p)
        }
        33 => {
            let l = |n| NonZeroLayout::from_layout(lay(n, 1).into()).unwrap();
            let old = alloc_traits::Allocation {
                ptr: std::ptr::NonNull::new(own as *mut u8).unwrap(),
                layout: l(3),
                lifetime: alloc_traits::AllocTime::default(),
            };
            match unsafe { LocalAlloc::realloc(b, old, l(9)) } {
                Some(a) => {
                    assert!(unsafe { std::slice::from_raw_parts(a.ptr.as_ptr(), 3) } == &OLD[..]);
                    Res("ok", a.ptr.as_ptr() as i64, -1, None)
                }
                None => Res("exh", -1, -1, None),
            }
        }
        35 => {
            let p = unsafe { std::alloc::GlobalAlloc::alloc_zeroed(b, lay(6, 2)) };
            assert!(p.is_null() || unsafe { std::slice::from_raw_parts(p, 6) } == [0; 6]);
            raw(p)
        }
        36 => match LocalAlloc::alloc_zeroed(b, NonZeroLayout::from_layout(lay(5, 1).into()).unwrap()) {
            Some(a) => {
                assert!(unsafe { std::slice::from_raw_parts(a.ptr.as_ptr(), 5) } == [0; 5]);
                Res("ok", a.ptr.as_ptr() as i64, -1, None)
            }
            None => Res("exh", -1, -1, None),
        },
        37 => get_layout(16, 128),
        38 => raw(unsafe { std::alloc::GlobalAlloc::alloc(b, lay(1, 256)) }),
        39 | 47 => {
            let l = if q == 39 { lay(3, 512) } else { lay(65537, 1) };
            match LocalAlloc::alloc(b, NonZeroLayout::from_layout(l.into()).unwrap()) {
                Some(a) => Res("ok", a.ptr.as_ptr() as i64, -1, None),
                None => Res("exh", -1, -1, None),
            }
        }
        40 => raw(b.alloc(lay(8, 1024)).map_or(std::ptr::null_mut(), |p| p.as_ptr())),
        41 => get_layout(1, 2048),
        42 => get_layout(7, 16384),
        43 => raw(b.alloc(lay(257, 1)).map_or(std::ptr::null_mut(), |p| p.as_ptr())),
        44 => match b.get::<[u64; 125]>() {
            Some(x) => Res("ok", x.ptr.as_ptr() as i64, lv(x.level), Some(x.level)),
            None => Res("exh", -1, -1, None),
        },
        45 => match b.leak([0xABCDu16; 2049]) {
            Ok(x) => { assert!(x.iter().all(|v| *v == 0xABCD)); Res("ok", x as *mut _ as i64, -1, None) }
            Err(e) => { assert!(e.into_inner().iter().all(|v| *v == 0xABCD)); Res("exh", -1, -1, None) }
        },
        46 => raw(unsafe { std::alloc::GlobalAlloc::alloc(b, lay(33333, 4)) }),
        48 => match b.get_layout_at(lay(5001, 16), at) {
            Ok(x) => Res("ok", x.ptr.as_ptr() as i64, lv(x.level), Some(x.level)),
            Err(f) => fail(f),
        },
        49 => match b.alloc_at(lay(300, 256), at) {
            Ok(x) => Res("ok", x.ptr.as_ptr() as i64, lv(x.level), Some(x.level)),
            Err(f) => fail(f),
        },
        50 => match b.leak_at([0x1234u16; 385], at) {
            Ok((x, l)) => { assert!(x.iter().all(|v| *v == 0x1234)); Res("ok", x as *mut _ as i64, lv(l), Some(l)) }
            Err(e) => { let k = e.kind(); assert!(e.into_inner().iter().all(|v| *v == 0x1234)); fail(k) }
        },
        51 => match b.get::<Wide>() {
            Some(x) => Res("ok", x.ptr.as_ptr() as i64, lv(x.level), Some(x.level)),
            None => Res("exh", -1, -1, None),
        },
        52 => match b.leak(Wide::new()) {
            Ok(x) => { x.check(); Res("ok", x as *mut _ as i64, -1, None) }
            Err(e) => { e.into_inner().check(); Res("exh", -1, -1, None) }
        },
        53 => match b.leak_box(Wide::new()) {
            Some(mut x) => { x.check(); let p = &mut *x as *mut _ as i64; forget(x); Res("ok", p, -1, None) }
            None => Res("exh", -1, -1, None),
        },
        54 => match b.get_at::<Wide>(at) {
            Ok(x) => Res("ok", x.ptr.as_ptr() as i64, lv(x.level), Some(x.level)),
            Err(f) => fail(f),
        },
        55 => match b.leak_at(Wide::new(), at) {
            Ok((x, l)) => { x.check(); Res("ok", x as *mut _ as i64, lv(l), Some(l)) }
            Err(e) => { let k = e.kind(); e.into_inner().check(); fail(k) }
        },
        56 => match b.leak_box_at(Wide::new(), at) {
            Ok(mut x) => { x.check(); let p = &mut *x as *mut _ as i64; forget(x); Res("ok", p, -1, None) }
            Err(f) => fail(f),
        },
        57 => match b.alloc_at(lay(10000, 4096), at) {
            Ok(x) => Res("ok", x.ptr.as_ptr() as i64, lv(x.level), Some(x.level)),
            Err(f) => fail(f),
        },
        58 => raw(unsafe { std::alloc::GlobalAlloc::alloc(b, lay(9000, 8192)) }),
        59 => match LocalAlloc::alloc(b, NonZeroLayout::from_layout(lay(20000, 4096).into()).unwrap()) {
            Some(a) => Res("ok", a.ptr.as_ptr() as i64, -1, None),
            None => Res("exh", -1, -1, None),
        },
        60 => {
            let p = unsafe { std::alloc::GlobalAlloc::alloc_zeroed(b, lay(5000, 1024)) };
            assert!(p.is_null() || unsafe { std::slice::from_raw_parts(p, 5000) } == [0; 5000]);
            raw(p)
        }
        61 => match LocalAlloc::alloc_zeroed(b, NonZeroLayout::from_layout(lay(5000, 1024).into()).unwrap()) {
            Some(a) => {
                assert!(unsafe { std::slice::from_raw_parts(a.ptr.as_ptr(), 5000) } == [0; 5000]);
                Res("ok", a.ptr.as_ptr() as i64, -1, None)
            }
            None => Res("exh", -1, -1, None),
        },
        62 => match b.leak_box([0x5Au8; 5000]) {
            Some(mut x) => { assert!(x.iter().all(|v| *v == 0x5A)); let p = &mut *x as *mut _ as i64; forget(x); Res("ok", p, -1, None) }
            None => Res("exh", -1, -1, None),
        },
        63 => match b.leak_box_at([0x5Au8; 5000], at) {
            Ok(mut x) => { assert!(x.iter().all(|v| *v == 0x5A)); let p = &mut *x as *mut _ as i64; forget(x); Res("ok", p, -1, None) }
            Err(f) => fail(f),
        },
        o => panic!("no request {o}"),
    }
}

/// A value that is large and much aligned.
#[repr(align(2048))]
struct Wide([u16; 2048]);
impl Wide {
    fn new() -> Self {
        Wide([0xABCD; 2048])
    }
    fn check(&self) {
        assert!(self as *const _ as usize % 2048 == 0 && self.0.iter().all(|v| *v == 0xABCD));
    }
}

/// The request that makes the block to be reallocated.
fn precursor(q: i64) -> Option<i64> {
    match q {
        32 | 34 => Some(6),
        33 => Some(7),
        _ => None,
    }
}

/// Memory in which every address modulo 65536 can be had.
const ARENA: Layout = unsafe { Layout::from_size_align_unchecked(1 << 19, 1 << 16) };
struct Arena(*mut u8);
impl Arena {
    fn new() -> Self {
        Arena(unsafe { std::alloc::alloc(ARENA) })
    }
}
impl Drop for Arena {
    fn drop(&mut self) {
        unsafe { std::alloc::dealloc(self.0, ARENA) }
    }
}

// ------------------------------------------------------------------ scheduler
#[derive(Default)]
struct St {
    turn: usize, // 0: the main thread
    gen: u64,
    quit: bool,
    starting: bool,
    aborted: bool,
    waiting: Vec<bool>,
    done: Vec<bool>,
    cur: Vec<Option<(i64, i64)>>, // invocation not logged yet
    ev: Vec<String>,
    path: Vec<(usize, usize)>,
    pos: usize,
    random: Option<u64>,
    last: usize,
    same: usize,
    steps: usize,
    spur: usize,
}

struct Ctl {
    m: Mutex<St>,
    cv: Vec<Condvar>,
}

fn op(a: &str, x: i64, y: i64, z: i64) -> Op {
    Op { a: a.into(), x, y, z }
}

impl St {
    fn decide(&mut self, n: usize) -> usize {
        if n == 1 {
            return 0;
        }
        if let Some(r) = &mut self.random {
            *r ^= *r << 13;
            *r ^= *r >> 7;
            *r ^= *r << 17;
            return (*r >> 11) as usize % n;
        }
        let c = if self.pos < self.path.len() {
            self.path[self.pos].0.min(n - 1)
        } else {
            self.path.push((0, n));
            0
        };
        self.path[self.pos].1 = n;
        self.pos += 1;
        c
    }
    /// Pick the next thread to run among those waiting, 0 if there is none.
    fn choose(&mut self) -> usize {
        let last = self.last;
        let mut opts: Vec<usize> = (1..self.waiting.len()).filter(|t| self.waiting[*t] && *t != last).collect();
        if last != 0 && self.waiting[last] && (self.same < 60 || opts.is_empty()) {
            opts.insert(0, last);
        }
        if opts.is_empty() {
            return 0;
        }
        self.steps += 1;
        if self.steps > 3000 {
            self.aborted = true;
        }
        let t = opts[self.decide(opts.len())];
        self.same = if t == last { self.same + 1 } else { 0 };
        self.last = t;
        t
    }
    fn inv(&mut self, t: usize) {
        if let Some((q, e)) = self.cur[t].take() {
            self.ev.push(event_str(&op("inv", t as i64, q, e), &Obs { r: "ok", ..Default::default() }));
        }
    }
}

impl Ctl {
    fn pass(&self, st: &mut St, to: usize) {
        st.turn = to;
        self.cv[to].notify_one();
    }
    fn wait<'a>(&'a self, mut st: std::sync::MutexGuard<'a, St>, me: usize) -> std::sync::MutexGuard<'a, St> {
        while st.turn != me {
            st = self.cv[me].wait(st).unwrap();
        }
        st
    }
    fn finish(&self, tid: usize) {
        let mut st = self.m.lock().unwrap();
        st.done[tid] = true;
        let to = if st.starting { 0 } else { st.choose() };
        self.pass(&mut st, to);
    }
}

struct Handle(Arc<Ctl>);
impl atomic_polyfill::Sched for Handle {
    fn point(&self, tid: usize) {
        let c = &self.0;
        let mut st = c.m.lock().unwrap();
        st.waiting[tid] = true;
        let to = if st.starting { 0 } else { st.choose() };
        if to != tid {
            c.pass(&mut st, to);
            st = c.wait(st, tid);
        }
        st.waiting[tid] = false;
        st.inv(tid);
        if st.aborted {
            drop(st);
            std::panic::resume_unwind(Box::new("hang"));
        }
    }
    fn spurious(&self, _tid: usize) -> bool {
        let mut st = self.0.m.lock().unwrap();
        if st.spur >= 2 {
            return false;
        }
        let f = st.decide(2) == 1;
        st.spur += f as usize;
        f
    }
}

struct Obj<T> {
    ptr: *mut Bump<T>,
    base: usize,
}
unsafe impl<T> Sync for Obj<T> {}

#[derive(Default)]
struct Th {
    seen: Vec<Level>,
    own: usize, // address of the block that the next request reallocates
}

/// The level argument of a conditional request.
fn arg(th: &Th, sel: i64) -> Level {
    th.seen[th.seen.len().saturating_sub(1 + sel as usize)]
}

/// What is recorded with the invocation of a request: the level asked for or the offset of the old block.
fn arg_z<T>(o: &Obj<T>, th: &Th, q: i64, e: Level) -> i64 {
    if is_at(q) {
        lv(e)
    } else if precursor(q).is_some() {
        scale(th.own as i64 - o.base as i64)
    } else {
        0
    }
}

fn is_at(q: i64) -> bool {
    matches!(q, 9..=14 | 20 | 26 | 28 | 31 | 48..=50 | 54..=57 | 63)
}

fn one<T>(o: &Obj<T>, th: &mut Th, q: i64, e: Level, prep: bool) -> (&'static str, [i64; 2]) {
    let own = std::mem::take(&mut th.own);
    match catch_unwind(AssertUnwindSafe(|| exec(unsafe { &*o.ptr }, q, e, own))) {
        Ok(Res(r, p, l, seen)) => {
            if let Some(l) = seen {
                th.seen.push(l);
            }
            if r == "ok" && prep && (o.base as i64..(o.base + size_of::<T>()) as i64).contains(&p) {
                th.own = p as usize;
                unsafe { std::ptr::copy_nonoverlapping(OLD.as_ptr(), p as *mut u8, if q == 6 { 2 } else { 3 }) };
            }
            (r, [if p == -1 { -1 } else { scale(p - o.base as i64) }, l])
        }
        Err(e) => (if e.downcast_ref::<&str>() == Some(&"hang") { "hang" } else { "panic" }, [-1, -1]),
    }
}

fn rets(t: usize, q: i64, r: &'static str, v: [i64; 2]) -> String {
    event_str(&op("ret", t as i64, q, 0), &Obs { r, v: v.to_vec(), k: 1, ..Default::default() })
}

fn run<T: Copy + Send>(s: &Script, log: &mut Log, limit: usize, randoms: usize) {
    let arena = Arena::new();
    let abase = arena.0 as usize;
    // Where is the storage within the allocator?
    let pat: Vec<u8> = (0..size_of::<T>()).map(|i| (i as u8).wrapping_mul(7) | 0x80).collect();
    let off = {
        let mut t = MaybeUninit::<T>::uninit();
        unsafe {
            std::ptr::copy_nonoverlapping(pat.as_ptr(), t.as_mut_ptr() as *mut u8, pat.len());
            std::ptr::write_bytes(abase as *mut u8, 0, 4096);
            std::ptr::write(abase as *mut Bump<T>, Bump::new(t.assume_init()));
            let mem = std::slice::from_raw_parts(abase as *const u8, size_of::<Bump<T>>());
            mem.windows(pat.len().max(1)).position(|w| w[..pat.len()] == pat[..]).unwrap_or(0)
        }
    };
    let al = std::mem::align_of::<Bump<T>>();
    let mut base = s.cfg[1].max(8) as usize;
    while base < off || (base - off) % al != 0 {
        base += 1;
    }
    let mut o = Obj::<T> { ptr: (abase + base - off) as *mut Bump<T>, base: abase + base };
    let big = s.cfg[0] == 10;
    UNIT.store(if big { 4096 } else { 1 }, SeqCst);
    let cfg = [s.cfg[0], if big { -1 } else { base as i64 }, s.cfg[2]];
    let nt = s.ops.iter().map(|o| o.x).filter(|t| *t < 9).max().unwrap_or(0) as usize;
    let progs: Vec<Vec<&Op>> = (0..10).map(|t| s.ops.iter().filter(|o| o.x == t).collect()).collect();
    let ctl = Arc::new(Ctl { m: Mutex::new(St::default()), cv: (0..=nt).map(|_| Condvar::new()).collect() });

    // main thread operations
    fn serial<T: Copy>(o: &mut Obj<T>, th: &mut Th, ops: &[&Op], ev: &mut Vec<String>) {
        for p in ops {
            let e = arg(th, p.z);
            if let Some(q) = precursor(p.y) {
                ev.push(event_str(&op("inv", 0, q, 0), &Obs { r: "ok", ..Default::default() }));
                let (r, v) = one(o, th, q, e, true);
                ev.push(rets(0, q, r, v));
                if th.own == 0 {
                    continue;
                }
            }
            ev.push(event_str(&op("inv", 0, p.y, arg_z(o, th, p.y, e)), &Obs { r: "ok", ..Default::default() }));
            if p.y == 16 {
                unsafe { (*o.ptr).reset() };
                th.seen = vec![unsafe { (*o.ptr).level() }];
                ev.push(rets(0, 16, "ok", [-1, -1]));
                continue;
            }
            let (r, v) = one(o, th, p.y, e, false);
            ev.push(rets(0, p.y, r, v));
        }
    }
    fn fresh<T: Copy>(o: &Obj<T>, ctor: i64) {
        unsafe {
            std::ptr::write_bytes(o.ptr as *mut u8, 0xEE, size_of::<Bump<T>>());
            std::ptr::write(o.ptr, match ctor {
                0 => Bump::uninit(),
                1 => Bump::zeroed(),
                _ => {
                    let mut t = MaybeUninit::<T>::uninit();
                    std::ptr::write_bytes(t.as_mut_ptr() as *mut u8, 1, size_of::<T>());
                    Bump::new(t.assume_init())
                }
            });
        }
    }
    let endop = op("end", 0, 0, 0);
    let endev = || event_str(&endop, &Obs { r: "ok", k: 1, ..Default::default() });
    if nt == 0 {
        fresh(&o, s.cfg[2]);
        let mut th = Th { seen: vec![unsafe { (*o.ptr).level() }], own: 0 };
        let mut ev = vec![];
        serial(&mut o, &mut th, &progs[0], &mut ev);
        ev.push(endev());
        log.history(&s.id, &cfg, &ev);
        return;
    }

    let oo = &o;
    let prefix_seen = Mutex::new(vec![]);
    let mut hist: HashSet<Vec<String>> = HashSet::new();
    std::thread::scope(|sc| {
        for t in 1..=nt {
            let ctl = ctl.clone();
            let prog = &progs[t];
            let prefix_seen = &prefix_seen;
            sc.spawn(move || {
                let h: Arc<dyn atomic_polyfill::Sched> = Arc::new(Handle(ctl.clone()));
                loop {
                    {
                        let st = ctl.wait(ctl.m.lock().unwrap(), t);
                        if st.quit {
                            // hand the baton back
                            let mut st = st;
                            ctl.pass(&mut st, 0);
                            return;
                        }
                    }
                    let mut th = Th { seen: prefix_seen.lock().unwrap().clone(), own: 0 };
                    atomic_polyfill::enter(h.clone(), t);
                    for p in prog {
                        let e = arg(&th, p.z);
                        let mut call = |th: &mut Th, q: i64, prep| {
                            ctl.m.lock().unwrap().cur[t] = Some((q, arg_z(oo, th, q, e)));
                            let (r, v) = one(oo, th, q, e, prep);
                            let mut st = ctl.m.lock().unwrap();
                            st.inv(t);
                            st.ev.push(rets(t, q, r, v));
                        };
                        if let Some(q) = precursor(p.y) {
                            call(&mut th, q, true);
                            if th.own == 0 {
                                continue;
                            }
                        }
                        call(&mut th, p.y, false);
                    }
                    atomic_polyfill::leave();
                    ctl.finish(t);
                }
            });
        }
        let mut path: Vec<(usize, usize)> = vec![];
        let mut runs = 0;
        let mut rng = 0x9E3779B97F4A7C15u64;
        loop {
            Log::alive();
            fresh(oo, s.cfg[2]);
            let mut th = Th { seen: vec![unsafe { (*oo.ptr).level() }], own: 0 };
            let mut ev = vec![];
            serial(&mut Obj { ptr: oo.ptr, base: oo.base }, &mut th, &progs[0], &mut ev);
            *prefix_seen.lock().unwrap() = th.seen.clone();
            {
                let mut st = ctl.m.lock().unwrap();
                let random = if runs < limit { None } else { rng = rng.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407); Some(rng | 1) };
                *st = St {
                    waiting: vec![false; nt + 1],
                    done: vec![false; nt + 1],
                    cur: vec![None; nt + 1],
                    ev: std::mem::take(&mut ev),
                    path: std::mem::take(&mut path),
                    starting: true,
                    random,
                    ..Default::default()
                };
                // let everyone run to its first atomic step
                for t in 1..=nt {
                    ctl.pass(&mut st, t);
                    st = ctl.wait(st, 0);
                }
                st.starting = false;
                let to = st.choose();
                if to != 0 {
                    ctl.pass(&mut st, to);
                    st = ctl.wait(st, 0);
                }
                path = std::mem::take(&mut st.path);
                ev = std::mem::take(&mut st.ev);
            }
            serial(&mut Obj { ptr: oo.ptr, base: oo.base }, &mut th, &progs[9], &mut ev);
            ev.push(endev());
            hist.insert(ev);
            runs += 1;
            if runs < limit {
                while let Some((c, n)) = path.last_mut() {
                    if *c + 1 < *n {
                        *c += 1;
                        break;
                    }
                    path.pop();
                }
                if path.is_empty() {
                    break;
                }
            } else if runs >= limit + randoms {
                break;
            }
        }
        let mut st = ctl.m.lock().unwrap();
        st.quit = true;
        for t in 1..=nt {
            ctl.pass(&mut st, t);
            st = ctl.wait(st, 0);
        }
        drop(st);
        log.line(&format!("N {} {}", runs, (runs < limit) as i32));
    });
    for h in &hist {
        log.history(&s.id, &cfg, h);
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let limit = a.get(4).map_or(2000, |s| s.parse().unwrap());
    let randoms = a.get(5).map_or(300, |s| s.parse().unwrap());
    drive_many(|s, log| with_st!(s.cfg[0], T => run::<T>(s, log, limit, randoms)));
}
