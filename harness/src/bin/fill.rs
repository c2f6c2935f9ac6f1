//! Driver for the `fill` crate. cfg = [kind, capacity, type, initial items, rotation, size hint 0-3]
use std::cell::Cell;
use std::collections::VecDeque;
use std::rc::Rc;

use fill::Fill;
use vh::*;

/// Items of the different kinds.
trait Make: Sized {
    /// `lvl`: an error of that level
    fn make(lvl: i64) -> Self;
    fn eat(self) -> i64;
}
struct Val<T>(T);
impl<T: El> Make for Val<T> {
    fn make(_: i64) -> Self {
        Val(T::mk())
    }
    fn eat(self) -> i64 {
        self.0.eat()
    }
}
impl Make for () {
    fn make(_: i64) -> Self {
        fresh();
        NEW.with(|n| n.borrow_mut().push(0));
    }
    fn eat(self) -> i64 {
        0
    }
}
struct Er(T3);
impl<T: Make> Make for Result<T, Er> {
    fn make(lvl: i64) -> Self {
        match lvl {
            0 => Ok(T::make(0)),
            1 => Err(Er(T3::mk())),
            l => Ok(T::make(l - 1)),
        }
    }
    fn eat(self) -> i64 {
        match self {
            Ok(t) => t.eat(),
            Err(e) => e.0.eat(),
        }
    }
}

#[derive(Default)]
struct Stat {
    pulled: Cell<i64>,
    polls: Cell<i64>,
    /// reading what is left: do not panic any more
    rest: Cell<bool>,
}
/// n items, then None, then maybe more; or a panic
struct Src<I> {
    left: i64,
    more: bool,
    boom: bool,
    err: i64,
    lvl: i64,
    hint: i64,
    st: Rc<Stat>,
    make: Box<dyn FnMut(i64) -> I>,
}
impl<I> Iterator for Src<I> {
    type Item = I;
    fn next(&mut self) -> Option<I> {
        self.st.polls.set(self.st.polls.get() + 1);
        assert!(self.st.polls.get() < 10_000, "endless");
        if self.left == 0 {
            if self.boom && !self.st.rest.get() {
                panic!("source as scripted");
            }
            if self.more {
                self.left = -1;
            }
            return None;
        }
        if self.left > 0 {
            self.left -= 1;
        }
        self.st.pulled.set(self.st.pulled.get() + 1);
        self.err -= 1;
        Some((self.make)(if self.err == 0 { self.lvl } else { 0 }))
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        if self.hint == 0 {
            (0, None)
        } else if self.left < 0 {
            (if self.hint == 1 { usize::MAX } else { 0 }, None)
        } else {
            let n = self.left as usize;
            // 1: as exact as it can be, 2: like a filter, 3: loose on both sides
            let (low, high) = match self.hint {
                1 => (n, n),
                2 => (0, n + 2),
                _ => (n / 2, n * 2),
            };
            (low, if self.more || self.boom { None } else { Some(high) })
        }
    }
}

struct Out {
    r: &'static str,
    v: Vec<i64>,
    m: Vec<i64>,
}
fn go<I, C: Fill<I>>(c: &mut C, op: &Op, src: Src<I>, eat: impl Fn(I) -> i64) -> Out {
    let st = src.st.clone();
    let (mut r, mut n, mut m) = ("ok", -1, vec![]);
    let tail = match op.a.as_str() {
        "fill" => {
            c.fill(src);
            None
        }
        "count" => {
            n = c.fill_count(src) as i64;
            None
        }
        "tail" => Some(c.fill_and_keep_tail(src)),
        "checked" => {
            let t = c.checked_fill(src);
            r = if t.is_some() { "some" } else { "none" };
            t
        }
        o => panic!("script error {o}"),
    };
    let v = vec![st.pulled.get(), st.polls.get(), n];
    if let Some(mut t) = tail {
        st.rest.set(true);
        for _ in 0..op.z {
            match t.next() {
                Some(i) => m.push(eat(i)),
                None => break,
            }
        }
    }
    Out { r, v, m }
}

fn src<I>(op: &Op, depth: i64, hint: i64, make: Box<dyn FnMut(i64) -> I>) -> Src<I> {
    let (err, lvl) = if depth == 0 || op.y == 0 || (op.y / 1000 > 1 && depth == 1) {
        (0, 0)
    } else {
        (op.y % 1000, if depth == 1 { 1 } else { 1 + (op.y / 1000) % 2 })
    };
    Src { left: if op.x < 0 { -1 } else { op.x % 1000 }, more: op.x >= 1000 && op.x < 2000, boom: op.x >= 2000, err, lvl, hint, st: Rc::default(), make }
}

/// What can be done with a container besides filling it.
trait Cont<I>: Fill<I> {
    fn ids(&self) -> Vec<i64>;
    fn cap(&self) -> i64;
    fn pop(&mut self) -> Option<i64>;
    /// level of the error and its id
    fn bad(&self) -> Option<(i64, i64)> {
        None
    }
}
fn enc(n: usize) -> i64 {
    if n == usize::MAX { -1 } else { n as i64 }
}
impl<T: El> Cont<Val<T>> for Option<Val<T>> {
    fn ids(&self) -> Vec<i64> {
        self.iter().map(|v| v.0.id()).collect()
    }
    fn cap(&self) -> i64 {
        1
    }
    fn pop(&mut self) -> Option<i64> {
        self.take().map(|v| v.0.eat())
    }
}
impl<T: El> Cont<Val<T>> for Vec<Val<T>> {
    fn ids(&self) -> Vec<i64> {
        self.iter().map(|v| v.0.id()).collect()
    }
    fn cap(&self) -> i64 {
        enc(self.capacity())
    }
    fn pop(&mut self) -> Option<i64> {
        Vec::pop(self).map(|v| v.0.eat())
    }
}
impl<T: El> Cont<Val<T>> for VecDeque<Val<T>> {
    fn ids(&self) -> Vec<i64> {
        self.iter().map(|v| v.0.id()).collect()
    }
    fn cap(&self) -> i64 {
        enc(self.capacity())
    }
    fn pop(&mut self) -> Option<i64> {
        self.pop_front().map(|v| v.0.eat())
    }
}
/// A container that asks again when the iterator says that there is nothing.
struct Nag<T>(Vec<T>, usize);
impl<T> Fill<T> for Nag<T> {
    fn fill<I: IntoIterator<Item = T>>(&mut self, iter: I) {
        let mut it = iter.into_iter();
        let mut nones = 0;
        while self.0.len() < self.1 && nones < 3 {
            match it.next() {
                Some(i) => self.0.push(i),
                None => nones += 1,
            }
        }
    }
}
impl<T: El> Cont<Val<T>> for Nag<Val<T>> {
    fn ids(&self) -> Vec<i64> {
        self.0.iter().map(|v| v.0.id()).collect()
    }
    fn cap(&self) -> i64 {
        self.1 as i64
    }
    fn pop(&mut self) -> Option<i64> {
        self.0.pop().map(|v| v.0.eat())
    }
}
impl Cont<()> for () {
    fn ids(&self) -> Vec<i64> {
        vec![]
    }
    fn cap(&self) -> i64 {
        -1
    }
    fn pop(&mut self) -> Option<i64> {
        None
    }
}
impl<C: Cont<T>, T> Cont<Result<T, Er>> for Result<C, Er> {
    fn ids(&self) -> Vec<i64> {
        match self {
            Ok(c) => c.ids(),
            Err(_) => vec![],
        }
    }
    fn cap(&self) -> i64 {
        match self {
            Ok(c) => c.cap(),
            Err(_) => -5,
        }
    }
    fn pop(&mut self) -> Option<i64> {
        self.as_mut().ok().and_then(|c| c.pop())
    }
    fn bad(&self) -> Option<(i64, i64)> {
        match self {
            Ok(c) => c.bad().map(|(l, i)| (l + 1, i)),
            Err(e) => Some((1, e.0.id())),
        }
    }
}

fn run<I: Make + 'static, C: Cont<I>>(s: &Script, log: &mut Log, c: C) {
    let mut c = Some(c);
    let depth = s.cfg[0] / 10;
    let cap0 = c.as_ref().unwrap().cap();
    let mut ops = s.ops.clone();
    ops.push(Op { a: "end".into(), x: 0, y: 0, z: 0 });
    for op in &ops {
        let mut r = "ok";
        let g = call(0, || match op.a.as_str() {
            "pop" => match c.as_mut().unwrap().pop() {
                Some(id) => Out { r: "ok", v: vec![], m: vec![id] },
                None => Out { r: "skip", v: vec![], m: vec![] },
            },
            "end" => {
                drop(c.take());
                Out { r: "ok", v: vec![], m: vec![] }
            }
            _ => {
                let src = src(op, depth, s.cfg[5], Box::new(|l| I::make(l)));
                let mut o = go(c.as_mut().unwrap(), op, src, |i| i.eat());
                if s.cfg[0] % 10 == 7 {
                    o.v[1] = -1;
                }
                o
            }
        });
        let o = g.res.unwrap_or(Out { r: "panic", v: vec![], m: vec![] });
        if o.r != "ok" {
            r = o.r;
        }
        let mut v = o.v;
        let bad = c.as_ref().and_then(|c| c.bad());
        let mut ids = c.as_ref().map_or(vec![], |c| c.ids());
        if let Some((_, id)) = bad {
            ids.push(id);
        }
        // the capacity cannot be seen while there is an error
        let cap = c.as_ref().map_or(cap0, |c| if bad.is_some() { cap0 } else { c.cap() });
        v.extend([cap, bad.map_or(0, |b| b.0), 0]);
        log.event(op, &Obs { r, v, d: g.d, c: ids, n: g.n, m: o.m, k: 1 });
    }
}

/// Slice iterators.
fn slices<T: El>(s: &Script, log: &mut Log, swap: bool) {
    let n = s.cfg[1] as usize;
    let mut data: Vec<T> = (0..n).map(|_| T::with_id(if T::ZST { fresh(); 0 } else { fresh() })).collect();
    let all: &'static mut [T] = unsafe { &mut *(data.as_mut_slice() as *mut [T]) };
    let mut it = all.iter_mut();
    let mut ops = s.ops.clone();
    ops.push(Op { a: "end".into(), x: 0, y: 0, z: 0 });
    let mut over = false;
    for op in &ops {
        let g = call(0, || match op.a.as_str() {
            "pop" => Out { r: "skip", v: vec![], m: vec![] },
            "end" => {
                data.clear();
                over = true;
                Out { r: "ok", v: vec![], m: vec![] }
            }
            _ if swap => {
                let mut buf: Vec<T> = (0..op.x.min(600)).map(|_| T::mk()).collect();
                let p = buf.as_mut_ptr();
                let mut k = 0;
                // lent for the call only
                let src: Src<&'static mut T> = src(op, 0, s.cfg[5], Box::new(move |_| {
                    k += 1;
                    unsafe { &mut *p.add(k - 1) }
                }));
                let mut o = go(&mut it, op, src, |_| 0);
                o.m = buf.into_iter().map(|b| b.eat()).collect();
                o
            }
            _ => go(&mut it, op, src(op, 0, s.cfg[5], Box::new(|_| T::mk())), |i: T| i.eat()),
        });
        let o = g.res.unwrap_or(Out { r: "panic", v: vec![], m: vec![] });
        let mut v = o.v;
        v.extend([n as i64, 0, if over { 0 } else { n as i64 - it.len() as i64 }]);
        log.event(op, &Obs { r: o.r, v, d: g.d, c: data.iter().map(|x| x.id()).collect(), n: g.n, m: o.m, k: 1 });
    }
}

fn main() {
    drive(|s, log| {
        let (kind, cap, ty, init) = (s.cfg[0], s.cfg[1] as usize, s.cfg[2], s.cfg[3] as usize);
        fn val<T: El>() -> Val<T> {
            let id = fresh();
            Val(T::with_id(if T::ZST { 0 } else { id }))
        }
        fn vec<T: El>(cap: usize, n: usize) -> Vec<Val<T>> {
            let mut v = Vec::with_capacity(cap);
            assert!(v.capacity() == cap || T::ZST);
            v.extend((0..n.min(cap)).map(|_| val()));
            v
        }
        fn deque<T: El>(cap: usize, n: usize, rot: i64) -> VecDeque<Val<T>> {
            let mut v = VecDeque::with_capacity(cap);
            assert!(v.capacity() == cap || T::ZST);
            if cap > 0 {
                for _ in 0..rot {
                    v.push_back(Val(T::with_id(0)));
                    v.pop_front().unwrap().0.eat();
                }
            }
            v.extend((0..n.min(cap)).map(|_| val()));
            v
        }
        with_ty!(ty, T => match kind {
            1 => run::<Val<T>, _>(s, log, if init > 0 { Some(val::<T>()) } else { None }),
            2 => run::<Val<T>, _>(s, log, vec::<T>(cap, init)),
            3 => run::<Val<T>, _>(s, log, deque::<T>(cap, init, s.cfg[4])),
            4 => run::<(), _>(s, log, ()),
            5 => slices::<T>(s, log, false),
            6 => slices::<T>(s, log, true),
            11 => run::<Result<Val<T>, Er>, _>(s, log, Ok(if init > 0 { Some(val::<T>()) } else { None })),
            12 => run::<Result<Val<T>, Er>, _>(s, log, Ok(vec::<T>(cap, init))),
            13 => run::<Result<Val<T>, Er>, _>(s, log, Ok(deque::<T>(cap, init, s.cfg[4]))),
            17 => run::<Result<Val<T>, Er>, _>(s, log, Ok(Nag(vec::<T>(cap, init), cap))),
            27 => run::<Result<Result<Val<T>, Er>, Er>, _>(s, log, Ok(Ok(Nag(vec::<T>(cap, init), cap)))),
            14 => run::<Result<(), Er>, Result<(), Er>>(s, log, Ok(())),
            21 => run::<Result<Result<Val<T>, Er>, Er>, _>(s, log, Ok(Ok(if init > 0 { Some(val::<T>()) } else { None }))),
            22 => run::<Result<Result<Val<T>, Er>, Er>, _>(s, log, Ok(Ok(vec::<T>(cap, init)))),
            23 => run::<Result<Result<Val<T>, Er>, Er>, _>(s, log, Ok(Ok(deque::<T>(cap, init, s.cfg[4])))),
            k => panic!("no kind {k}"),
        })
    });
}
