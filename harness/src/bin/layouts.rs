//! Driver for alloc_traits::{Layout, NonZeroLayout}. cfg = [0]
use alloc_traits::{Layout, NonZeroLayout};
use std::convert::TryFrom;
use vh::*;

#[derive(Clone, Copy)]
enum R {
    Std(std::alloc::Layout),
    Lay(Layout),
    Nz(NonZeroLayout),
}
fn enc(n: usize) -> i64 {
    // sizes close to the limit by their distance to it
    let max = isize::MAX as usize + 1;
    if n > max / 2 {
        -((max - n.min(max)) as i64)
    } else {
        n as i64
    }
}

fn main() {
    drive(|s, log| {
        let mut regs: Vec<R> = vec![];
        let mut ops = s.ops.clone();
        ops.push(Op { a: "end".into(), x: 0, y: 0, z: 0 });
        for op in &ops {
            let mut v = vec![];
            let mut r = "ok";
            let at = |i: i64| regs[i as usize - 1];
            let g = call(0, || {
                let new = match (op.a.as_str(), op.x) {
                    ("std", _) => {
                        let size = if op.x < 0 { (isize::MAX as usize + 1).wrapping_sub(op.x.unsigned_abs() as usize) } else { op.x as usize };
                        Some(R::Std(std::alloc::Layout::from_size_align(size, op.y as usize).expect("script error")))
                    }
                    ("new", t) => Some(R::Lay(with_ty!(t, T => Layout::new::<T>()))),
                    ("nz", t) => match with_ty!(t, T => NonZeroLayout::new::<T>()) {
                        Some(l) => Some(R::Nz(l)),
                        None => {
                            r = "none";
                            None
                        }
                    },
                    ("wrap", i) => match at(i) {
                        R::Std(l) => Some(R::Lay(Layout::from(l))),
                        _ => unreachable!(),
                    },
                    ("std_of", i) => match at(i) {
                        R::Lay(l) => Some(R::Std(l.into())),
                        R::Nz(l) => Some(R::Std(l.into())),
                        _ => unreachable!(),
                    },
                    ("nonzero", i) => {
                        let (fail, l) = match (op.y, at(i)) {
                            (1, R::Lay(l)) => ("none", NonZeroLayout::from_layout(l)),
                            (2, R::Lay(l)) => ("err", NonZeroLayout::try_from(l).ok()),
                            (3, R::Std(l)) => ("err", NonZeroLayout::try_from(l).ok()),
                            _ => unreachable!(),
                        };
                        if l.is_none() {
                            r = fail;
                        }
                        l.map(R::Nz)
                    }
                    ("eq", i) => {
                        let (e, n) = match (at(i), at(op.y)) {
                            (R::Std(a), R::Std(b)) => (a == b, a != b),
                            (R::Lay(a), R::Lay(b)) => (a == b, a != b),
                            (R::Nz(a), R::Nz(b)) => (a == b, a != b),
                            _ => unreachable!(),
                        };
                        v = vec![e as i64, n as i64];
                        None
                    }
                    ("end", _) => None,
                    o => panic!("script error {o:?}"),
                };
                new
            });
            match g.res {
                None => r = "panic",
                Some(Some(x)) => regs.push(x),
                Some(None) => (),
            }
            let c = call(0, || {
                regs.iter()
                    .flat_map(|x| match x {
                        R::Std(l) => [1, enc(l.size()), l.align() as i64],
                        R::Lay(l) => [2, enc(l.size()), l.align() as i64],
                        R::Nz(l) => [3, enc(l.size().get()), l.align() as i64],
                    })
                    .collect()
            })
            .res
            .unwrap_or_default();
            log.event(op, &Obs { r, v, c, k: 1, ..Default::default() });
        }
    });
}
