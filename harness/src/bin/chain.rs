//! Driver for static_alloc::unsync::Chain.
//! cfg = [address of the heap blocks modulo 4096, first type, second type]
use static_alloc::bump::Failure;
use static_alloc::leaked::LeakBox;
use static_alloc::unsync::Chain;
use vh::track::{self, Ev, Mode};
use vh::*;

#[global_allocator]
static A: track::Track = track::Track;

trait Item {
    fn id(&self) -> i64;
    fn place(&self) -> usize;
    fn ok(&self) -> bool;
}
struct It<T: El>(LeakBox<'static, T>, usize);
impl<T: El> Item for It<T> {
    fn id(&self) -> i64 {
        self.0.id()
    }
    fn place(&self) -> usize {
        &*self.0 as *const T as usize
    }
    fn ok(&self) -> bool {
        self.place() == self.1 && self.1 % std::mem::align_of::<T>() == 0
    }
}

fn full<R>(f: impl FnOnce() -> R) -> R {
    track::tracked(Mode::Full, f)
}

fn deep(n: usize) -> (usize, usize, usize) {
    track::counts();
    track::tracked(Mode::Count, || {
        let c = Chain::new(8).unwrap();
        for _ in 1..n {
            c.chain(Chain::new(8).unwrap());
        }
        drop(c);
    });
    let (a, f, sa, sf) = track::counts();
    (a, f, sa - sf)
}
/// As above, but the long chain is the one that is put in front.
fn deep2(n: usize) -> (usize, usize, usize) {
    track::counts();
    track::tracked(Mode::Count, || {
        let c = Chain::new(8).unwrap();
        for _ in 1..n - 1 {
            c.chain(Chain::new(8).unwrap());
        }
        let d = Chain::new(16).unwrap();
        d.chain(c);
        drop(d);
    });
    let (a, f, sa, sf) = track::counts();
    (a, f, sa - sf)
}

fn run(s: &Script, log: &mut Log) {
    track::clear();
    track::offset(s.cfg[0] as usize);
    let mut chains: Vec<Option<Box<Chain>>> = vec![];
    let mut items: Vec<Option<(Box<dyn Item>, usize)>> = vec![];
    let mut ops = s.ops.clone();
    ops.push(Op { a: "end".into(), x: 0, y: 0, z: 0 });
    for op in &ops {
        let mut name = op.clone();
        let mut r = "ok";
        let mut v = [-1i64; 5];
        let x = (op.x - 1) as usize;
        let y = (op.y - 1) as usize;
        let has = |c: &Vec<Option<Box<Chain>>>, i: usize| c.get(i).is_some_and(|c| c.is_some());
        let ok = match op.a.as_str() {
            "box" | "drop" | "fill" => has(&chains, x),
            "chain" => has(&chains, x) && has(&chains, y) && x != y,
            "dropitem" => items.get(x).is_some_and(|i| i.is_some()),
            _ => true,
        };
        let mut g = Got { res: Some(()), d: vec![], n: vec![] };
        if !ok {
            name.a = "skip".into();
        } else {
            g = call(0, || match op.a.as_str() {
                "new" | "huge" => {
                    let n = if op.a == "new" { op.x as usize } else { [usize::MAX, isize::MAX as usize - 7, 1 << 40][op.x as usize] };
                    track::refuse(op.y == 1);
                    let c = full(|| Chain::new(n));
                    track::refuse(false);
                    match c {
                        Ok(c) => {
                            v[2] = c.capacity() as i64;
                            v[3] = c.remaining_capacity() as i64;
                            chains.push(Some(Box::new(c)));
                        }
                        Err(e) => {
                            r = if e.allocation_size() >= n || op.a == "huge" { "err" } else { "size" };
                            if op.a == "new" {
                                chains.push(None);
                            }
                        }
                    }
                }
                "box" => {
                    let ty = s.cfg[op.y as usize];
                    let c: &'static Chain = unsafe { &*(&**chains[x].as_ref().unwrap() as *const Chain) };
                    with_ty!(ty, T => match full(|| c.bump_box::<T>()) {
                        Ok(b) => {
                            let p = &*b as *const _ as usize;
                            if let (Some((k, o)), false) = (track::find(p), T::ZST) {
                                v[0] = k as i64;
                                v[1] = ((p - o) % 4096 + o) as i64;
                            }
                            // do not write outside of the blocks
                            if v[0] == -1 && !T::ZST {
                                r = "stray";
                                std::mem::forget(b);
                                items.push(None);
                            } else {
                                let b = LeakBox::write(b, T::mk());
                                items.push(Some((Box::new(It(b, p)), x)));
                            }
                        }
                        Err(Failure::Exhausted) => { r = "exh"; items.push(None) }
                        Err(_) => { r = "mis"; items.push(None) }
                    });
                    v[2] = c.capacity() as i64;
                    v[3] = c.remaining_capacity() as i64;
                }
                "fill" => {
                    // many values that are given up at once
                    let c: &'static Chain = unsafe { &*(&**chains[x].as_ref().unwrap() as *const Chain) };
                    with_ty!(s.cfg[op.y as usize], T => for _ in 0..op.z {
                        match full(|| c.bump_box::<T>()) {
                            Ok(b) => {
                                let p = &*b as *const _ as usize;
                                match track::find(p) {
                                    Some((k, o)) if !T::ZST => {
                                        v[0] = k as i64;
                                        v[1] = ((p - o) % 4096 + o) as i64;
                                        // all of it is ours
                                        unsafe { (p as *mut u8).write_bytes(0xEE, std::mem::size_of::<T>()) };
                                    }
                                    _ => {
                                        r = "stray";
                                        break;
                                    }
                                }
                            }
                            Err(Failure::Exhausted) => { r = "exh"; break }
                            Err(_) => { r = "mis"; break }
                        }
                    });
                    v[2] = c.capacity() as i64;
                    v[3] = c.remaining_capacity() as i64;
                }
                "chain" => {
                    for i in items.iter_mut().filter(|i| i.as_ref().is_some_and(|i| i.1 == y)) {
                        *i = None;
                    }
                    let n = *chains[y].take().unwrap();
                    let c = chains[x].as_ref().unwrap();
                    full(|| c.chain(n));
                    v[2] = c.capacity() as i64;
                    v[3] = c.remaining_capacity() as i64;
                }
                "drop" => {
                    for i in items.iter_mut().filter(|i| i.as_ref().is_some_and(|i| i.1 == x)) {
                        *i = None;
                    }
                    let c = *chains[x].take().unwrap();
                    full(|| drop(c));
                }
                "dropitem" => items[x] = None,
                "deep" => {
                    let (a, b, c) = if op.y == 1 { deep2(op.x as usize) } else { deep(op.x as usize) };
                    v[0] = a as i64;
                    v[1] = b as i64;
                    v[2] = c as i64;
                }
                "end" => {
                    items.iter_mut().for_each(|i| *i = None);
                    for c in chains.iter_mut() {
                        if let Some(c) = c.take() {
                            let c = *c;
                            full(|| drop(c));
                        }
                    }
                }
                o => panic!("script error {o}"),
            });
        }
        if g.res.is_none() {
            r = "panic";
        }
        let (mut n, mut m) = (vec![], vec![]);
        for e in track::events() {
            match e {
                Ev::Alloc { id, size, align } => n.extend([id as i64, size as i64, align as i64]),
                Ev::Free { id, same } => m.extend([id as i64, same as i64]),
                Ev::Bad(id) => m.extend([id as i64, 0]),
            }
        }
        let c: Vec<i64> = items.iter().flatten().map(|i| i.0.id()).collect();
        v[4] = (track::guards() && items.iter().flatten().all(|i| i.0.ok())) as i64;
        log.event(&name, &Obs { r, v: v.to_vec(), d: g.d, c, n, m, k: 1 });
    }
    track::clear();
}

fn main() {
    // little stack: releasing a long chain must not need any
    std::thread::Builder::new().stack_size(1 << 20).spawn(|| drive(run)).unwrap().join().unwrap();
}
