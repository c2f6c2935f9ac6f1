//! Driver for values moved into the bump allocators. cfg = [allocator, storage, type 1, type 2]
use std::alloc::Layout;
use std::hash::{Hash, Hasher};
use std::mem::MaybeUninit;
use std::pin::Pin;

use static_alloc::{bump::{Bump, Level}, leaked::LeakBox, unsync};
use vh::*;

/// What the boxes contain: a tracked value with all the forwarded traits.
#[repr(transparent)]
struct W<T: El>(T);
impl<T: El> Hash for W<T> {
    fn hash<H: Hasher>(&self, h: &mut H) {
        h.write_i64(self.0.id())
    }
}
impl<T: El> std::fmt::Display for W<T> {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "{}", self.0.id())
    }
}
impl<T: El> std::fmt::Debug for W<T> {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "#{}", self.0.id())
    }
}
trait Probe {
    fn probe(&self) -> i64;
}
impl<T: El> Probe for W<T> {
    fn probe(&self) -> i64 {
        self.0.id()
    }
}

struct Collect(i64);
impl Hasher for Collect {
    fn write(&mut self, b: &[u8]) {
        self.0 = i64::from_ne_bytes(b.try_into().unwrap_or([9; 8]));
    }
    fn finish(&self) -> u64 {
        self.0 as u64
    }
}

enum It<T: El> {
    Ref(&'static mut W<T>),
    Box(LeakBox<'static, W<T>>),
    Pin(Pin<LeakBox<'static, W<T>>>),
    Arr(LeakBox<'static, [W<T>]>),
    Raw(*mut W<T>),
    RArr(*mut [W<T>]),
    Gone,
}
use It::*;

/// Everything a box forwards to its content must agree.
fn through<T: El>(b: &LeakBox<'static, W<T>>) -> i64 {
    let id = b.0.id();
    let mut h = Collect(-1);
    b.hash(&mut h);
    let addr = &**b as *const W<T>;
    if AsRef::<W<T>>::as_ref(b).0.id() != id
        || h.0 != id
        || format!("{b:?}") != format!("#{id}")
        || format!("{b}") != format!("{id}")
        || format!("{:p}", *b) != format!("{addr:p}")
    {
        return -7;
    }
    id
}

impl<T: El> It<T> {
    fn ids(&self) -> Vec<i64> {
        match self {
            Ref(r) => vec![r.0.id()],
            Box(b) => vec![through(b)],
            Pin(p) => vec![p.0.id()],
            Arr(a) => a.iter().map(|x| x.0.id()).collect(),
            Raw(p) => vec![unsafe { &**p }.0.id()],
            RArr(p) => unsafe { &**p }.iter().map(|x| x.0.id()).collect(),
            Gone => vec![],
        }
    }
    fn place(&self) -> (usize, usize) {
        let (p, n) = match self {
            Ref(r) => (&**r as *const _ as usize, 1),
            Box(b) => (&**b as *const _ as usize, 1),
            Pin(p) => (&**p as *const _ as usize, 1),
            Arr(a) => (a.as_ptr() as usize, a.len()),
            Raw(p) => (*p as usize, 1),
            RArr(p) => (*p as *mut W<T> as usize, unsafe { &**p }.len()),
            Gone => (0, 0),
        };
        (p, n * std::mem::size_of::<T>())
    }
}

trait Slot {
    fn ids(&self) -> Vec<i64>;
    fn place(&self) -> (usize, usize);
    fn align(&self) -> usize;
    fn gone(&self) -> bool;
    fn boxy(&self) -> bool;
    fn kill(&mut self);
    /// false: not possible
    fn op(&mut self, a: &str) -> Option<Vec<i64>>;
    fn bare(&mut self) -> Option<(*mut u8, usize, usize)>;
}

impl<T: El> Slot for It<T> {
    fn ids(&self) -> Vec<i64> {
        It::ids(self)
    }
    fn place(&self) -> (usize, usize) {
        It::place(self)
    }
    fn align(&self) -> usize {
        std::mem::align_of::<T>()
    }
    fn gone(&self) -> bool {
        matches!(self, Gone)
    }
    fn boxy(&self) -> bool {
        matches!(self, Box(_) | Pin(_) | Arr(_))
    }
    fn kill(&mut self) {
        *self = Gone;
    }
    fn op(&mut self, a: &str) -> Option<Vec<i64>> {
        let this = std::mem::replace(self, Gone);
        let (next, m) = match (a, this) {
            ("take", Box(b)) => (Gone, vec![LeakBox::take(b).0.eat()]),
            ("drop", Box(b)) => { drop(b); (Gone, vec![]) }
            ("drop", Pin(b)) => { drop(b); (Gone, vec![]) }
            ("drop", Arr(b)) => { drop(b); (Gone, vec![]) }
            ("forget", Box(b)) => { std::mem::forget(b); (Gone, vec![]) }
            ("forget", Pin(b)) => { std::mem::forget(b); (Gone, vec![]) }
            ("forget", Arr(b)) => { std::mem::forget(b); (Gone, vec![]) }
            ("set", Ref(r)) => { r.0 = T::mk(); (Ref(r), vec![]) }
            ("set", Box(mut b)) => { AsMut::<W<T>>::as_mut(&mut b).0 = T::mk(); (Box(b), vec![]) }
            ("raw", Box(b)) => (Raw(LeakBox::into_raw(b)), vec![]),
            ("raw", Arr(b)) => (RArr(LeakBox::into_raw(b)), vec![]),
            ("unraw", Raw(p)) => (Box(unsafe { LeakBox::from_raw(p) }), vec![]),
            ("unraw", RArr(p)) => (Arr(unsafe { LeakBox::from_raw(p) }), vec![]),
            ("toleak", Box(b)) => (Ref(LeakBox::leak(b)), vec![]),
            ("own", Ref(r)) if !T::ZST => {
                // a box of the first byte, which need not be dropped
                let p = r as *mut W<T>;
                let first: &'static mut u8 = unsafe { &mut *p.cast() };
                let was = *first;
                let mut b: LeakBox<'static, u8> = LeakBox::from_mut(first);
                assert!(&*b as *const u8 == p.cast() && *b == was);
                *b = !was;
                assert_eq!(LeakBox::take(b), !was);
                let first: &'static mut u8 = unsafe { &mut *p.cast() };
                assert_eq!(*first, !was);
                *LeakBox::from_mut(first) = was;
                (Box(unsafe { LeakBox::from_mut_unchecked(&mut *p) }), vec![])
            }
            ("own", Ref(r)) => (Box(unsafe { LeakBox::from_mut_unchecked(r) }), vec![]),
            ("pin", Box(b)) => (Pin(LeakBox::into_pin(b)), vec![]),
            (_, t) => {
                *self = t;
                return None;
            }
        };
        *self = next;
        Some(m)
    }
    fn bare(&mut self) -> Option<(*mut u8, usize, usize)> {
        let p: *mut W<T> = match self {
            Ref(r) => &mut **r,
            Box(b) => &mut **b,
            _ => return None,
        };
        Some((p as *mut u8, std::mem::size_of::<T>(), T::mk as usize))
    }
}

enum Al<S: 'static> {
    Sync(&'static Bump<S>),
    Unsync(&'static unsync::Bump<S>),
}

/// The new item, what came back, whether it worked.
fn put<T: El, S>(al: &Al<S>, o: &Op, start: Level) -> (It<T>, Vec<i64>, bool) {
    let mk = || W(T::mk());
    let no = |m| (Gone, m, false);
    match al {
        Al::Sync(b) => {
            let at = if o.z == 1 { start } else { b.level() };
            match o.a.as_str() {
                "leak" => match b.leak(mk()) {
                    Ok(r) => (Ref(r), vec![], true),
                    Err(e) => no(vec![e.into_inner().0.eat()]),
                },
                "leakat" => match b.leak_at(mk(), at) {
                    Ok((r, _)) => (Ref(r), vec![], true),
                    Err(e) => no(vec![e.into_inner().0.eat()]),
                },
                "lbox" => b.leak_box(mk()).map_or_else(|| no(vec![]), |x| (Box(x), vec![], true)),
                "lboxat" => b.leak_box_at(mk(), at).map_or_else(|_| no(vec![]), |x| (Box(x), vec![], true)),
                "wbox" => match b.get::<W<T>>() {
                    Some(x) => (Box(LeakBox::write(LeakBox::from(unsafe { x.uninit() }), mk())), vec![], true),
                    None => no(vec![]),
                },
                "gbox" => match b.get::<W<T>>() {
                    Some(x) => (Box(unsafe { x.boxed(mk()) }), vec![], true),
                    None => no(vec![]),
                },
                "gleak" => match b.get_at::<W<T>>(b.level()) {
                    Ok(x) => (Ref(unsafe { x.leak(mk()) }), vec![], true),
                    Err(_) => no(vec![]),
                },
                "arr" => match b.get::<[W<T>; 3]>() {
                    Some(x) => {
                        let u = unsafe { x.uninit() };
                        let s: &'static mut [MaybeUninit<W<T>>] = unsafe { std::slice::from_raw_parts_mut(u.as_mut_ptr().cast(), 3) };
                        slice(LeakBox::from(s))
                    }
                    None => no(vec![0; 0]),
                },
                "dyn" => match b.leak_box(MaybeUninit::<W<T>>::uninit()) {
                    Some(x) => dynamic(LeakBox::write(x, mk())),
                    None => no(vec![]),
                },
                x => panic!("script error {x}"),
            }
        }
        Al::Unsync(b) => {
            let at = if o.z == 1 { start } else { b.level() };
            match o.a.as_str() {
                "leak" => { let v = mk(); match b.get::<W<T>>() {
                    Some(x) => (Ref(unsafe { x.leak(v) }), vec![], true),
                    None => no(vec![v.0.eat()]),
                }}
                "leakat" => { let v = mk(); match b.get_at::<W<T>>(at) {
                    Ok(x) => (Ref(unsafe { x.leak(v) }), vec![], true),
                    Err(_) => no(vec![v.0.eat()]),
                }}
                "lbox" => { let v = mk(); match b.bump_box::<W<T>>() {
                    Ok(x) => (Box(LeakBox::write(x, v)), vec![], true),
                    Err(_) => no(vec![]),
                }}
                "lboxat" => { let v = mk(); match b.get_at::<W<T>>(at) {
                    Ok(x) => (Box(unsafe { x.boxed(v) }), vec![], true),
                    Err(_) => no(vec![]),
                }}
                "wbox" => match b.bump_box::<W<T>>() {
                    Ok(x) => (Box(LeakBox::write(x, mk())), vec![], true),
                    Err(_) => no(vec![]),
                },
                "gbox" => match b.get::<W<T>>() {
                    Some(x) => (Box(unsafe { x.boxed(mk()) }), vec![], true),
                    None => no(vec![]),
                },
                "gleak" => match b.get_at::<W<T>>(b.level()) {
                    Ok(x) => (Ref(LeakBox::leak(LeakBox::write(unsafe { LeakBox::from_mut_unchecked(x.uninit()) }, mk()))), vec![], true),
                    Err(_) => no(vec![]),
                },
                "arr" => match b.bump_array::<W<T>>(3) {
                    Ok(x) => slice(x),
                    Err(_) => no(vec![0; 0]),
                },
                "dyn" => match b.bump_box::<W<T>>() {
                    Ok(x) => dynamic(LeakBox::write(x, mk())),
                    Err(_) => no(vec![]),
                },
                x => panic!("script error {x}"),
            }
        }
    }
}
fn slice<T: El>(mut b: LeakBox<'static, [MaybeUninit<W<T>>]>) -> (It<T>, Vec<i64>, bool) {
    for e in b.iter_mut() {
        e.write(W(T::mk()));
    }
    let p = LeakBox::into_raw(b);
    (Arr(unsafe { LeakBox::from_raw(p as *mut [W<T>]) }), vec![], true)
}
fn dynamic<T: El>(b: LeakBox<'static, W<T>>) -> (It<T>, Vec<i64>, bool) {
    let id = b.0.id();
    let d: LeakBox<dyn Probe> = unsafe { LeakBox::from_raw(LeakBox::into_raw(b) as *mut dyn Probe) };
    let (same, p) = (d.probe() == id, LeakBox::into_raw(d));
    (Box(unsafe { LeakBox::from_raw(p as *mut W<T>) }), vec![], same)
}

fn run<S: 'static>(s: &Script, log: &mut Log) {
    let lay = Layout::from_size_align(4096, 4096).unwrap();
    let mem = unsafe { std::alloc::alloc_zeroed(lay) };
    enum P<S> {
        S(*mut Bump<S>),
        U(*mut unsync::Bump<S>),
    }
    let p: P<S> = unsafe {
        if s.cfg[0] == 1 {
            (mem as *mut Bump<S>).write(Bump::uninit());
            P::S(mem.cast())
        } else {
            (mem as *mut unsync::Bump<S>).write(unsync::Bump::uninit());
            P::U(mem.cast())
        }
    };
    let total = match &p {
        P::S(_) => std::mem::size_of::<Bump<S>>(),
        P::U(_) => std::mem::size_of::<unsync::Bump<S>>(),
    };
    let al: Al<S> = match &p {
        P::S(b) => Al::Sync(unsafe { &**b }),
        P::U(b) => Al::Unsync(unsafe { &**b }),
    };
    let level = |a: &Al<S>| match a {
        Al::Sync(b) => b.level(),
        Al::Unsync(b) => b.level(),
    };
    let mut start = level(&al);
    let mut items: Vec<(std::boxed::Box<dyn Slot>, (usize, usize))> = vec![];
    let mut ops: Vec<Op> = s.ops.clone();
    ops.push(Op { a: "end".into(), x: 0, y: 0, z: 0 });
    for op in &ops {
        let mut r = "ok";
        let i = op.x as usize;
        let g = call(0, || -> Option<Vec<i64>> {
            match op.a.as_str() {
                "leak" | "leakat" | "lbox" | "lboxat" | "wbox" | "gbox" | "gleak" | "arr" | "dyn" => {
                    let ty = s.cfg[1 + op.y as usize];
                    with_ty!(ty, T => {
                        let (it, m, ok) = put::<T, S>(&al, op, start);
                        let pl = it.place();
                        items.push((std::boxed::Box::new(it), pl));
                        r = if ok { "ok" } else { "fail" };
                        Some(m)
                    })
                }
                "swap" => {
                    let j = op.y as usize;
                    if i == j || i > items.len() || j > items.len() || i == 0 || j == 0 {
                        return None;
                    }
                    let a = items[i - 1].0.bare()?;
                    let b = items[j - 1].0.bare()?;
                    if a.2 != b.2 || a.1 != b.1 || std::mem::align_of_val(&*items[i - 1].0) != std::mem::align_of_val(&*items[j - 1].0) {
                        return None;
                    }
                    unsafe { std::ptr::swap_nonoverlapping(a.0, b.0, a.1) };
                    Some(vec![])
                }
                "reset" => {
                    if items.iter().any(|x| x.0.boxy()) {
                        return None;
                    }
                    items.iter_mut().for_each(|x| x.0.kill());
                    match &p {
                        P::S(b) => unsafe { (**b).reset() },
                        P::U(b) => unsafe { (**b).reset() },
                    }
                    start = level(&al);
                    Some(vec![])
                }
                "end" => {
                    for x in items.iter_mut().filter(|x| x.0.boxy()) {
                        x.0.kill();
                    }
                    Some(vec![])
                }
                a => items.get_mut(i.wrapping_sub(1))?.0.op(a),
            }
        });
        let m = match g.res {
            None => {
                r = "panic";
                vec![]
            }
            Some(None) => {
                r = "skip";
                vec![]
            }
            Some(Some(m)) => m,
        };
        let mut c = vec![];
        let mut good = 1;
        for (it, pl) in &items {
            c.extend(it.ids());
            if !it.gone() {
                let q = it.place();
                if q != *pl || q.0 % it.align() != 0 || (q.1 != 0 && (q.0 < mem as usize || q.0 + q.1 > mem as usize + total)) {
                    good = 0;
                }
            }
        }
        log.event(op, &Obs { r, v: vec![good], d: g.d, c, n: g.n, m, k: 1 });
    }
    drop(items);
    unsafe { std::alloc::dealloc(mem, lay) };
}

fn main() {
    drive(|s, log| match s.cfg[1] {
        1 => run::<[u64; 1]>(s, log),
        2 => run::<[u64; 4]>(s, log),
        3 => run::<[u64; 12]>(s, log),
        5 => run::<[u64; 250]>(s, log),
        _ => run::<[u64; 30]>(s, log),
    });
}
