//! Driver for without_alloc::FixedVec. cfg = [type, ctor, n, off]
use std::mem::MaybeUninit;
use std::ops::Bound;
use vh::*;
use without_alloc::{FixedVec, Uninit};

enum Act<'s> {
    /// hand the operation to the borrow below
    Below(&'s Op),
    Done,
}

fn enc(n: usize) -> i64 {
    if n == usize::MAX { -1 } else { n as i64 }
}

fn ids<T: El>(s: &[T]) -> Vec<i64> {
    // a broken length must not make us run away
    s.iter().take(3000).map(|t| t.id()).collect()
}

struct Ctx<'s, 'l> {
    it: std::slice::Iter<'s, Op>,
    log: &'l mut Log,
    depth: usize,
    other: bool,
}

impl<'s, 'l> Ctx<'s, 'l> {
    fn k(&self) -> i64 {
        (self.depth == 1 && !self.other) as i64
    }
    fn put(&mut self, op: &Op, r: &'static str, mut v: Vec<i64>, tail: [i64; 2], d: Vec<i64>, n: Vec<i64>, m: Vec<i64>, c: Vec<i64>) {
        v.extend_from_slice(&tail);
        let k = self.k();
        self.log.event(op, &Obs { r, v, d, c, n, m, k });
    }
    fn vec<T: El>(&mut self, op: &Op, r: &'static str, v: Vec<i64>, d: Vec<i64>, n: Vec<i64>, m: Vec<i64>, vec: &FixedVec<'_, T>) {
        assert_eq!(vec.is_empty(), vec.len() == 0);
        let t = [vec.len() as i64, enc(vec.capacity())];
        self.put(op, r, v, t, d, n, m, ids(vec.as_slice()));
    }
}

/// A source of items that may panic instead of making one, with right and wrong size hints.
struct Src<'p, T> {
    left: i64,
    pulled: &'p std::cell::Cell<i64>,
    panic: i64,
    hint: i64,
    _t: std::marker::PhantomData<T>,
}
impl<T: El> Iterator for Src<'_, T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        if self.left == 0 {
            return None;
        }
        if self.panic == self.pulled.get() + 1 {
            panic!("source as scripted");
        }
        self.left -= 1;
        self.pulled.set(self.pulled.get() + 1);
        if self.pulled.get() > 5000 {
            panic!("endless source exhausted");
        }
        Some(T::mk())
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        match self.hint {
            0 => (0, None),
            1 if self.left < 0 => (usize::MAX, None),
            1 => (self.left as usize, Some(self.left as usize)),
            2 => (usize::MAX, None),
            // right, but loose: like a filter, and unknown on both sides
            4 if self.left < 0 => (0, None),
            4 => (0, Some(self.left as usize + 2)),
            5 if self.left < 0 => (100, None),
            5 => (self.left as usize / 2, Some(self.left as usize * 2)),
            _ => (0, Some(0)),
        }
    }
}

/// What happens to the vectors at the root, which own their memory.
enum Root {
    Split(usize),
    Swap,
    DropOther(i64),
}

/// Interpret operations on a vector until its borrow ends. `root` is called for the operations
/// only available on the root.
fn on_vec<'s, T: El>(cx: &mut Ctx<'s, '_>, vec: &mut FixedVec<'_, T>, is_root: bool) -> Result<Act<'s>, (Root, &'s Op)> {
    while let Some(op) = cx.it.next() {
        match op.a.as_str() {
            "push" => {
                let g = call(0, || vec.push(T::mk()).map_err(|t| t.eat()));
                let (r, m) = match g.res {
                    Some(Ok(())) => ("ok", vec![]),
                    Some(Err(id)) => ("full", vec![id]),
                    None => ("panic", vec![]),
                };
                cx.vec(op, r, vec![], g.d, g.n, m, vec);
            }
            "pop" => {
                let g = call(0, || vec.pop().map(|t| t.eat()));
                let (r, m) = match g.res {
                    Some(Some(id)) => ("ok", vec![id]),
                    Some(None) => ("none", vec![]),
                    None => ("panic", vec![]),
                };
                cx.vec(op, r, vec![], g.d, g.n, m, vec);
            }
            "trunc" | "clear" => {
                let g = call(op.y, || if op.a == "clear" { vec.clear() } else { vec.truncate(op.x as usize) });
                cx.vec(op, if g.res.is_some() { "ok" } else { "panic" }, vec![], g.d, g.n, vec![], vec);
            }
            "set" => {
                let g = call(0, || vec[op.x as usize] = T::mk());
                cx.vec(op, if g.res.is_some() { "ok" } else { "panic" }, vec![], g.d, g.n, vec![], vec);
            }
            "fill" | "fillinf" | "extend" => {
                let pulled = std::cell::Cell::new(0);
                let left = if op.a == "fillinf" { -1 } else { op.x };
                let src = Src::<T> { left, pulled: &pulled, panic: op.y, hint: op.z, _t: Default::default() };
                let g = call(0, || {
                    if op.a == "extend" {
                        vec.extend(src)
                    } else {
                        vec.fill(src);
                    }
                });
                cx.vec(op, if g.res.is_some() { "ok" } else { "panic" }, vec![pulled.get()], g.d, g.n, vec![], vec);
            }
            "rev" => {
                vec.as_mut_slice().reverse();
                cx.vec(op, "ok", vec![], vec![], vec![], vec![], vec);
            }
            "setlen" => {
                let n = vec.len();
                unsafe { vec.set_len(op.x as usize) };
                let mut v = vec![vec.len() as i64];
                v.extend(ids(vec.as_slice()));
                unsafe { vec.set_len(n) };
                cx.vec(op, "ok", v, vec![], vec![], vec![], vec);
            }
            "pushmax" => {
                // only for elements without size: as many as there can be
                let n = vec.len();
                unsafe { vec.set_len(usize::MAX) };
                let g = call(0, || vec.push(T::mk()).map_err(|t| t.eat()));
                let full = vec.len() == usize::MAX;
                unsafe { vec.set_len(n) };
                let (r, m) = match g.res {
                    Some(Err(id)) if full => ("full", vec![id]),
                    Some(_) => ("ok", vec![]),
                    None => ("panic", vec![]),
                };
                cx.vec(op, r, vec![], g.d, g.n, m, vec);
            }
            "shrink" => {
                // Only the rest of the memory is handed out.
                let g = call(0, || { let _ = vec.shrink_to_fit(); });
                cx.vec(op, if g.res.is_some() { "ok" } else { "panic" }, vec![], g.d, g.n, vec![], vec);
            }
            "drain" => {
                let (s, e) = (op.x as usize, op.y as usize);
                let range: (Bound<usize>, Bound<usize>) = match op.z {
                    0 => (Bound::Included(s), Bound::Excluded(e)),
                    1 => (Bound::Included(s), Bound::Included(e - 1)),
                    2 => (Bound::Excluded(s - 1), Bound::Included(e - 1)),
                    3 => (Bound::Unbounded, Bound::Excluded(e)),
                    4 => (Bound::Included(s), Bound::Unbounded),
                    6 => (Bound::Excluded(usize::MAX), Bound::Unbounded),
                    7 => (Bound::Unbounded, Bound::Included(usize::MAX)),
                    _ => (Bound::Unbounded, Bound::Unbounded),
                };
                let p: *mut FixedVec<'_, T> = vec;
                let g = call(0, || unsafe { &mut *p }.drain(range));
                match g.res {
                    None => cx.vec(op, "panic", vec![], g.d, g.n, vec![], vec),
                    Some(mut dr) => {
                        cx.depth += 1;
                        macro_rules! dput {
                            ($op:expr, $r:expr, $g:expr, $m:expr) => {{
                                let t = [dr.len() as i64, -2];
                                let c = ids(dr.as_slice());
                                // the iterator protocol has to agree
                                assert_eq!(ExactSizeIterator::len(&dr), dr.size_hint().0);
                                cx.put($op, $r, vec![], t, $g.d, $g.n, $m, c)
                            }};
                        }
                        let g = Got { res: Some(()), d: g.d, n: g.n };
                        dput!(op, "ok", g, vec![]);
                        let mut ended = false;
                        while let Some(op) = cx.it.next() {
                            match op.a.as_str() {
                                "dnext" | "dback" | "dnth" | "dnthb" => {
                                    let g = call(op.y, || {
                                        match op.a.as_str() {
                                            "dnext" => dr.next(),
                                            "dback" => dr.next_back(),
                                            "dnthb" => dr.nth_back(op.x as usize),
                                            _ => dr.nth(op.x as usize),
                                        }
                                        .map(|t| t.eat())
                                    });
                                    let (r, m) = match g.res {
                                        Some(Some(id)) => ("ok", vec![id]),
                                        Some(None) => ("none", vec![]),
                                        None => ("panic", vec![]),
                                    };
                                    dput!(op, r, g, m);
                                }
                                "rev" => {
                                    dr.as_mut_slice().reverse();
                                    let g = Got { res: Some(()), d: vec![], n: vec![] };
                                    dput!(op, "ok", g, vec![]);
                                }
                                "dcons" => {
                                    let mut m = vec![];
                                    let mut v = vec![];
                                    let g = call(0, || match op.x {
                                        0 => m.extend(dr.collect::<Vec<T>>().into_iter().map(|t| t.eat())),
                                        1 => m.extend(dr.rev().collect::<Vec<T>>().into_iter().map(|t| t.eat())),
                                        2 => v.push(dr.count() as i64),
                                        3 => m.extend(dr.last().map(|t| t.eat())),
                                        4 => {
                                            let mut k = 0;
                                            dr.for_each(|t| {
                                                k += 1;
                                                if k == op.y {
                                                    panic!("as scripted");
                                                }
                                                m.push(t.eat());
                                            })
                                        }
                                        _ => {
                                            let mut dr = dr;
                                            loop {
                                                let Some(t) = dr.next() else { break };
                                                m.push(t.eat());
                                                let Some(t) = dr.next_back() else { break };
                                                m.push(t.eat());
                                            }
                                        }
                                    });
                                    cx.depth -= 1;
                                    cx.vec(op, if g.res.is_some() { "ok" } else { "panic" }, v, g.d, g.n, m, vec);
                                    ended = true;
                                    break;
                                }
                                "dend" => {
                                    let g = call(op.y, move || drop(dr));
                                    cx.depth -= 1;
                                    cx.vec(op, if g.res.is_some() { "ok" } else { "panic" }, vec![], g.d, g.n, vec![], vec);
                                    ended = true;
                                    break;
                                }
                                "dforget" => {
                                    let g = call(0, move || std::mem::forget(dr));
                                    cx.depth -= 1;
                                    cx.vec(op, if g.res.is_some() { "ok" } else { "panic" }, vec![], g.d, g.n, vec![], vec);
                                    ended = true;
                                    break;
                                }
                                _ => return Ok(Act::Below(op)),
                            }
                        }
                        if !ended {
                            return Ok(Act::Done);
                        }
                    }
                }
            }
            "splitb" => {
                let p: *mut FixedVec<'_, T> = vec;
                let g = call(0, || unsafe { &mut *p }.split_borrowed(op.x as usize));
                match g.res {
                    None => cx.vec(op, "panic", vec![], g.d, g.n, vec![], vec),
                    Some(mut tail) => {
                        cx.depth += 1;
                        cx.vec(op, "ok", vec![], g.d, g.n, vec![], &tail);
                        match on_vec(cx, &mut tail, false) {
                            Ok(Act::Below(op)) if op.a == "splitend" => {
                                let g = call(op.y, move || drop(tail));
                                cx.depth -= 1;
                                cx.vec(op, if g.res.is_some() { "ok" } else { "panic" }, vec![], g.d, g.n, vec![], vec);
                            }
                            other => return other,
                        }
                    }
                }
            }
            "splitend" => return Ok(Act::Below(op)),
            "splits" if is_root => return Err((Root::Split(op.x as usize), op)),
            "swapo" if is_root => return Err((Root::Swap, op)),
            "dropo" if is_root => return Err((Root::DropOther(op.y), op)),
            other => panic!("script error: {other}"),
        }
    }
    Ok(Act::Done)
}

fn run<T: El>(s: &Script, log: &mut Log) {
    let (n, off) = (s.cfg[2] as usize, s.cfg[3] as usize);
    let mut arena = Arena::new();
    let mut slice: Vec<MaybeUninit<T>> = Vec::new();
    slice.resize_with(n, MaybeUninit::uninit);
    let mut a = match s.cfg[1] {
        0 => FixedVec::new((&mut slice[..]).into()),
        _ => FixedVec::from_unaligned(Uninit::from(&mut arena.0[off..off + n])),
    };
    let mut b: Option<FixedVec<'_, T>> = None;
    let mut cx = Ctx { it: s.ops.iter(), log, depth: 1, other: false };
    // Whatever borrows are still alive when the script ends are dropped with it.
    let mut end_d = vec![];
    DROPS.with(|d| d.borrow_mut().clear());
    loop {
        match on_vec(&mut cx, &mut a, true) {
            Err((Root::Split(at), op)) => {
                let g = call(0, || a.split_and_shrink_to(at));
                let ok = g.res.is_some();
                b = g.res.or(b);
                cx.other = b.is_some();
                cx.vec(op, if ok { "ok" } else { "panic" }, vec![], g.d, g.n, vec![], &a);
            }
            Err((Root::Swap, op)) => {
                std::mem::swap(&mut a, b.as_mut().unwrap());
                cx.vec(op, "ok", vec![], vec![], vec![], vec![], &a);
            }
            Err((Root::DropOther(p), op)) => {
                let x = b.take();
                let g = call(p, move || drop(x));
                cx.other = false;
                cx.vec(op, if g.res.is_some() { "ok" } else { "panic" }, vec![], g.d, g.n, vec![], &a);
            }
            Ok(_) => break,
        }
    }
    DROPS.with(|d| end_d.extend(d.borrow_mut().drain(..)));
    let g = call(0, move || {
        drop(a);
        drop(b);
    });
    end_d.extend(g.d);
    let op = Op { a: "end".into(), x: 0, y: 0, z: 0 };
    cx.log.event(&op, &Obs { r: if g.res.is_some() { "ok" } else { "panic" }, d: end_d, k: 1, ..Default::default() });
}

fn main() {
    drive(|s, log| with_ty!(s.cfg[0], T => run::<T>(s, log)));
}
