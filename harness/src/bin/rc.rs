//! Driver for without_alloc::rc. cfg = [type], 12: a value that may hold a handle.
use std::cell::RefCell;
use std::ptr::NonNull;

use vh::*;
use without_alloc::rc::{Rc, Weak};
use without_alloc::Uninit;

enum H<P: 'static> {
    Rc(Rc<'static, P>, usize),
    Weak(Weak<'static, P>, usize),
    Raw(Uninit<'static, P>, usize),
    Mem(Uninit<'static, ()>, usize),
    /// many handles
    Rcs(Vec<Rc<'static, P>>),
    Weaks(Vec<Weak<'static, P>>),
    Gone,
}

trait Pay: Sized + 'static {
    fn mk() -> Self;
    fn id(&self) -> i64;
    /// exchange for a new value
    fn renew(&mut self) -> i64;
    /// consume without destructor
    fn eat(self) -> (i64, Option<H<Self>>);
    fn tie(&self, _: H<Self>, _: i64) {
        panic!("script error")
    }
    fn out() -> Vec<H<Self>> {
        vec![]
    }
}
struct Plain<T: El>(T);
impl<T: El> Pay for Plain<T> {
    fn mk() -> Self {
        Plain(T::mk())
    }
    fn id(&self) -> i64 {
        self.0.id()
    }
    fn renew(&mut self) -> i64 {
        std::mem::replace(&mut self.0, T::mk()).eat()
    }
    fn eat(self) -> (i64, Option<H<Self>>) {
        (self.0.eat(), None)
    }
}

/// A value that may hold a handle and does something with it when destroyed.
struct Node {
    el: T3,
    tied: RefCell<Option<(H<Node>, i64)>>,
}
thread_local! {
    static OUT: RefCell<Vec<H<Node>>> = const { RefCell::new(Vec::new()) };
}
fn escape(h: H<Node>) {
    OUT.with(|o| o.borrow_mut().push(h))
}
fn note(c: i64) {
    DROPS.with(|d| d.borrow_mut().push(c))
}
impl Drop for Node {
    fn drop(&mut self) {
        let Some((h, a)) = self.tied.borrow_mut().take() else { return };
        let keep = match (a, h) {
            (1, H::Weak(w, b)) => {
                note(if w.upgrade().is_some() { -21 } else { -20 });
                Some(H::Weak(w, b))
            }
            (5, H::Weak(w, b)) => {
                match w.upgrade() {
                    Some(r) => {
                        note(-21);
                        escape(H::Rc(r, b));
                    }
                    None => note(-20),
                }
                Some(H::Weak(w, b))
            }
            (2, H::Weak(w, b)) => {
                escape(H::Weak(w.clone(), b));
                Some(H::Weak(w, b))
            }
            (2, H::Rc(r, b)) => {
                escape(H::Rc(r.clone(), b));
                Some(H::Rc(r, b))
            }
            (3, H::Weak(w, b)) => match w.try_unwrap() {
                Ok(m) => {
                    note(-31);
                    wipe(&m);
                    escape(H::Mem(m, b));
                    None
                }
                Err(w) => {
                    note(-30);
                    Some(H::Weak(w, b))
                }
            },
            (4, h) => {
                escape(h);
                None
            }
            (_, h) => Some(h),
        };
        *self.tied.borrow_mut() = keep.map(|h| (h, 0));
    }
}
impl Pay for Node {
    fn mk() -> Self {
        Node { el: T3::mk(), tied: RefCell::new(None) }
    }
    fn id(&self) -> i64 {
        self.el.id()
    }
    fn renew(&mut self) -> i64 {
        std::mem::replace(&mut self.el, T3::mk()).eat()
    }
    fn eat(self) -> (i64, Option<H<Self>>) {
        let t = self.tied.borrow_mut().take();
        let id = self.el.id();
        std::mem::forget(self);
        (id, t.map(|t| t.0))
    }
    fn tie(&self, h: H<Self>, a: i64) {
        *self.tied.borrow_mut() = Some((h, a));
    }
    fn out() -> Vec<H<Self>> {
        OUT.with(|o| std::mem::take(&mut *o.borrow_mut()))
    }
}

/// Memory that was handed back belongs to us.
fn wipe(m: &Uninit<'static, ()>) {
    unsafe { (m.as_ptr() as *mut u8).write_bytes(0xEE, m.size()) }
}

struct Region {
    _arena: Box<Arena>,
    base: usize,
    size: usize,
    addr: usize,
}
impl Region {
    fn guards(&self) -> bool {
        let a = self._arena.base();
        (self.base - 256..self.base).chain(self.base + self.size..(self.base + self.size + 512).min(a + 8192)).all(|p| unsafe { (p as *const u8).read_volatile() } == 0xA5)
    }
}

fn run<P: Pay>(s: &Script, log: &mut Log) {
    let mut regs: Vec<Region> = vec![];
    let mut hs: Vec<H<P>> = vec![];
    let lay = Rc::<P>::layout();
    let mut ops = s.ops.clone();
    ops.push(Op { a: "end".into(), x: 0, y: 0, z: 0 });
    for op in &ops {
        let mut r = "ok";
        let mut m = vec![];
        let i = (op.x - 1) as usize;
        let kind = |i: usize| match hs.get(i) {
            Some(H::Rc(..)) => 1,
            Some(H::Weak(..)) => 2,
            Some(H::Raw(..)) => 3,
            Some(H::Mem(..)) => 4,
            Some(H::Rcs(..) | H::Weaks(..)) => 5,
            _ => 0,
        };
        let fits = match op.a.as_str() {
            "clone" => [1, 2].contains(&kind(i)),
            "down" | "unwrap" | "getmut" | "intoraw" => kind(i) == 1,
            "many" | "manydown" => kind(i) == 1 || (op.a == "many" && kind(i) == 2),
            "up" | "wunwrap" => kind(i) == 2,
            "drop" => kind(i) != 0,
            "fromraw" => kind(i) == 3,
            "renew" => kind(i) == 4,
            "tie" => {
                let j = (op.y - 1) as usize;
                kind(i) == 1 && i != j && [1, 2].contains(&kind(j)) && s.cfg[0] == 12 && !tied(&hs[i])
            }
            _ => true,
        };
        let mut g = Got { res: Some(()), d: vec![], n: vec![] };
        if !fits {
            r = "skip";
        } else {
            let pan = if op.a == "drop" { op.y } else { 0 };
            let mut late = vec![];
            g = call(pan, || match op.a.as_str() {
                "new" => {
                    let arena = Arena::new();
                    let base = arena.base() + 2048 + if lay.align() < 64 { lay.align() } else { 0 };
                    let (base, size) = match op.x {
                        0 => (base, lay.size()),
                        1 => (base, lay.size() + if regs.len() % 2 == 0 { 13 } else { 3500 }),
                        2 => (base, lay.size() - 1),
                        3 => (base + 1, lay.size() + 64),
                        _ => (base, 0),
                    };
                    let u = unsafe { Uninit::from_memory(NonNull::new(base as *mut u8).unwrap().cast(), size) };
                    late.push(H::Gone);
                    let r = Rc::new(P::mk(), u);
                    regs.push(Region { _arena: arena, base, size, addr: &*r as *const P as usize });
                    late[0] = H::Rc(r, regs.len() - 1);
                }
                "clone" => late.push(match &hs[i] {
                    H::Rc(r, b) => H::Rc(r.clone(), *b),
                    H::Weak(w, b) => H::Weak(w.clone(), *b),
                    _ => unreachable!(),
                }),
                "many" => late.push(match &hs[i] {
                    H::Rc(r, _) => H::Rcs((0..op.y).map(|_| r.clone()).collect()),
                    H::Weak(w, _) => H::Weaks((0..op.y).map(|_| w.clone()).collect()),
                    _ => unreachable!(),
                }),
                "manydown" => {
                    let H::Rc(r, _) = &hs[i] else { unreachable!() };
                    late.push(H::Weaks((0..op.y).map(|_| Rc::downgrade(r)).collect()));
                }
                "down" => {
                    let H::Rc(r, b) = &hs[i] else { unreachable!() };
                    late.push(H::Weak(Rc::downgrade(r), *b));
                }
                "up" => {
                    let H::Weak(w, b) = &hs[i] else { unreachable!() };
                    late.push(match w.upgrade() {
                        Some(r) => H::Rc(r, *b),
                        None => {
                            r = "none";
                            H::Gone
                        }
                    });
                }
                "drop" => drop(std::mem::replace(&mut hs[i], H::Gone)),
                "unwrap" => {
                    let H::Rc(h, b) = std::mem::replace(&mut hs[i], H::Gone) else { unreachable!() };
                    hs[i] = match Rc::try_unwrap(h) {
                        Ok((v, w)) => {
                            let (id, t) = v.eat();
                            m.push(id);
                            late.extend(t);
                            H::Weak(w, b)
                        }
                        Err(h) => {
                            r = "err";
                            H::Rc(h, b)
                        }
                    };
                }
                "getmut" => {
                    let H::Rc(h, _) = &mut hs[i] else { unreachable!() };
                    match Rc::get_mut(h) {
                        Some(v) => m.push(v.renew()),
                        None => r = "none",
                    }
                }
                "intoraw" => {
                    let H::Rc(h, b) = std::mem::replace(&mut hs[i], H::Gone) else { unreachable!() };
                    hs[i] = match Rc::into_raw(h) {
                        Ok(u) => H::Raw(u, b),
                        Err(h) => {
                            r = "err";
                            H::Rc(h, b)
                        }
                    };
                }
                "fromraw" => {
                    let H::Raw(u, b) = std::mem::replace(&mut hs[i], H::Gone) else { unreachable!() };
                    hs[i] = H::Rc(unsafe { Rc::from_raw(u) }, b);
                }
                "wunwrap" => {
                    let H::Weak(w, b) = std::mem::replace(&mut hs[i], H::Gone) else { unreachable!() };
                    hs[i] = match w.try_unwrap() {
                        Ok(u) => {
                            wipe(&u);
                            H::Mem(u, b)
                        }
                        Err(w) => {
                            r = "err";
                            H::Weak(w, b)
                        }
                    };
                }
                "renew" => {
                    let H::Mem(u, b) = std::mem::replace(&mut hs[i], H::Gone) else { unreachable!() };
                    hs[i] = H::Rc(Rc::new(P::mk(), u), b);
                }
                "tie" => {
                    let h = std::mem::replace(&mut hs[(op.y - 1) as usize], H::Gone);
                    let H::Rc(r, _) = &hs[i] else { unreachable!() };
                    r.tie(h, op.z);
                }
                "end" => loop {
                    let all = std::mem::take(&mut hs);
                    if all.is_empty() {
                        break;
                    }
                    for h in all {
                        drop(h);
                    }
                    hs.extend(P::out());
                },
                o => panic!("script error {o}"),
            });
            hs.extend(late);
            hs.extend(P::out());
        }
        if g.res.is_none() {
            r = "panic";
        }
        // what can be seen
        let mut good = lay.size() >= std::mem::size_of::<P>() && lay.size() > 0 && lay.align() >= std::mem::align_of::<P>();
        good &= regs.iter().all(|r| r.guards());
        let (mut v, mut c) = (vec![0], vec![]);
        for h in &hs {
            match h {
                H::Rc(r, b) => {
                    v.extend([Rc::strong_count(r) as i64, Rc::weak_count(r) as i64]);
                    c.push(r.id());
                    let p = &**r as *const P as usize;
                    let q = &regs[*b];
                    good &= p == q.addr && p % std::mem::align_of::<P>() == 0 && q.base <= p && p + std::mem::size_of::<P>() <= q.base + q.size;
                    good &= format!("{:p}", *r) == format!("{:#x}", p);
                    good &= r.as_ref() as *const P as usize == p;
                    for h in &hs {
                        if let H::Rc(s, d) = h {
                            good &= Rc::ptr_eq(r, s) == (b == d);
                        }
                    }
                }
                H::Weak(w, _) => v.extend([w.strong_count() as i64, w.weak_count() as i64]),
                H::Raw(u, b) => {
                    v.extend([-1, -1]);
                    c.push(unsafe { (*u.as_ptr()).id() });
                    good &= u.as_ptr() as usize == regs[*b].addr && u.size() == regs[*b].size;
                }
                H::Mem(u, b) => {
                    v.extend([-1, -1]);
                    good &= u.as_ptr() as usize == regs[*b].base && u.size() == regs[*b].size;
                    good &= (0..u.size()).all(|k| unsafe { (u.as_ptr() as *const u8).add(k).read_volatile() } == 0xEE);
                }
                H::Rcs(_) | H::Weaks(_) => v.extend([-1, -1]),
                H::Gone => {}
            }
        }
        v[0] = good as i64;
        log.event(op, &Obs { r, v, d: g.d, c, n: g.n, m, k: 1 });
    }
}
fn tied<P: Pay>(h: &H<P>) -> bool {
    let H::Rc(r, _) = h else { return false };
    let n = &**r as *const P as *const Node;
    // only asked for nodes
    unsafe { (*n).tied.borrow().is_some() }
}

fn main() {
    drive(|s, log| match s.cfg[0] {
        12 => run::<Node>(s, log),
        t => with_ty!(t, T => run::<Plain<T>>(s, log)),
    });
}
