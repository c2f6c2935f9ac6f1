//! Driver for static_alloc::leaked::Alloca. cfg = [type]
use static_alloc::leaked::Alloca;
use std::mem::MaybeUninit;
use vh::*;

fn len_of(n: i64, size: usize) -> usize {
    match n {
        -1 => usize::MAX,
        -2 => usize::MAX / 2,
        -3 => isize::MAX as usize / size.max(1) + 1,
        n => n as usize,
    }
}

fn enc(n: usize, want: i64, size: usize) -> i64 {
    if n == len_of(want, size) { want } else if n > 1 << 30 { -99 } else { n as i64 }
}

/// Write everything, then `between`, then check that everything is still there.
fn exercise<T: El>(s: &mut [MaybeUninit<T>], between: impl FnOnce(usize)) -> i64 {
    let k = if T::ZST { s.len().min(3) } else { s.len() };
    for (i, p) in s.iter_mut().take(k).enumerate() {
        p.write(T::with_id(if T::ZST { 0 } else { (i % 100) as i64 }));
    }
    between(s.as_ptr() as usize);
    let mut good = 1;
    for (i, p) in s.iter().take(k).enumerate() {
        if unsafe { p.assume_init_ref() }.id() != if T::ZST { 0 } else { (i % 100) as i64 } {
            good = 0;
        }
    }
    good
}

struct Token(u64);

fn run<T: El>(s: &Script, log: &mut Log) {
    let size = std::mem::size_of::<T>();
    let align = std::mem::align_of::<T>();
    for op in &s.ops {
        let n = len_of(op.x, size);
        let mut v = [0i64; 5];
        match op.a.as_str() {
            "run" | "again" | "unwind" => {
                let mut made = false;
                let g = call(0, || {
                    let a = Alloca::<T>::new(n);
                    made = true;
                    let a = a?;
                    for _ in 0..if op.a == "again" { 3 } else { 1 } {
                        v = [0; 5];
                        let t = a.run(|sl| {
                            v[0] += 1;
                            v[1] = enc(sl.len(), op.x, size);
                            v[2] = (sl.as_ptr() as usize % align) as i64;
                            if sl.len() == n {
                                v[3] = exercise(sl, |_| ());
                            }
                            if op.a == "unwind" {
                                panic!("as scripted");
                            }
                            Token(0xfeed_0000 + n as u64 % 1000)
                        });
                        v[4] = (t.0 == 0xfeed_0000 + n as u64 % 1000) as i64;
                        if v != [1, op.x, 0, 1, 1] {
                            break;
                        }
                    }
                    Some(())
                });
                let r = match g.res {
                    Some(Some(())) => "ok",
                    Some(None) => "none",
                    None if made => "panic",
                    None => "unmade",
                };
                log.event(op, &Obs { r, v: v.to_vec(), k: 1, ..Default::default() });
            }
            "nest" => {
                let mut w = [0i64; 6];
                let g = call(0, || {
                    let a = Alloca::<T>::new(n).unwrap();
                    let t = a.run(|sl| {
                        v[0] += 1;
                        v[1] = enc(sl.len(), op.x, size);
                        v[2] = (sl.as_ptr() as usize % align) as i64;
                        let l = sl.len();
                        v[3] = exercise(sl, |at| {
                            let b = Alloca::<T>::new(op.y as usize).unwrap();
                            let t = b.run(|si| {
                                w[0] += 1;
                                w[1] = enc(si.len(), op.y, size);
                                w[2] = (si.as_ptr() as usize % align) as i64;
                                let p = si.as_ptr() as usize;
                                w[5] = (p + si.len() * size <= at || at + l * size <= p || size == 0 || l == 0 || si.is_empty()) as i64;
                                w[3] = exercise(si, |_| ());
                                Token(5)
                            });
                            w[4] = (t.0 == 5) as i64;
                        });
                        Token(6)
                    });
                    v[4] = (t.0 == 6) as i64;
                });
                let mut all = v.to_vec();
                all.extend_from_slice(&w);
                log.event(op, &Obs { r: if g.res.is_some() { "ok" } else { "panic" }, v: all, k: 1, ..Default::default() });
            }
            o => panic!("script error {o}"),
        }
    }
    log.event(&Op { a: "end".into(), x: 0, y: 0, z: 0 }, &Obs { r: "ok", k: 1, ..Default::default() });
}

fn main() {
    // plenty of stack
    std::thread::Builder::new()
        .stack_size(256 << 20)
        .spawn(|| drive(|s, log| with_ty!(s.cfg[0], T => run::<T>(s, log))))
        .unwrap()
        .join()
        .unwrap();
}
