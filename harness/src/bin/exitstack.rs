//! Driver for exit_stack::ExitStack. cfg = [type of the memory, first type, second type]
use std::mem::{align_of, size_of};
use std::pin::Pin;

use exit_stack::{ExitStack, Slot};
use vh::*;

trait Any2 {
    /// pin a value into the reserved slot: its address
    fn pin(self: Box<Self>, local: bool) -> Live;
}
struct Live {
    addr: usize,
    size: usize,
    align: usize,
    id: unsafe fn(usize) -> i64,
    deref: Box<dyn Fn() -> usize>,
}
struct Sl<T: El>(Slot<'static, T>);
impl<T: El> Any2 for Sl<T> {
    fn pin(self: Box<Self>, local: bool) -> Live {
        let v = T::mk();
        let p: Pin<&'static mut T> = if local { unsafe { self.0.pin_local(v) } } else { self.0.pin(v) };
        live(p)
    }
}
fn live<T: El>(p: Pin<&'static mut T>) -> Live {
    unsafe fn id<T: El>(p: usize) -> i64 {
        (*(p as *const T)).id()
    }
    let addr = &*p as *const T as usize;
    Live { addr, size: size_of::<T>(), align: align_of::<T>(), id: id::<T>, deref: Box::new(move || &*p as *const T as usize) }
}

type Large = [u64; 24000];
struct Ptr(*mut ExitStack<Large>);
unsafe impl Send for Ptr {}
/// Many values, dropped within little stack: how many were pinned, how many dropped in reverse
/// order, how many at all.
fn deep(n: usize, pan: i64) -> (bool, [i64; 3]) {
    let st = Ptr(Box::into_raw(Box::new(ExitStack::new())));
    let res = std::thread::Builder::new()
        .stack_size(1 << 17)
        .spawn(move || {
            let st = &st;
            let mut ids = vec![];
            for i in 0..n {
                let s: Pin<&'static ExitStack<Large>> = unsafe { Pin::new_unchecked(&*st.0) };
                let id = match i % 3 {
                    0 => s.slot::<T2>().map(|s| s.pin(T2::mk()).id()),
                    1 => s.slot::<T3>().map(|s| s.pin(T3::mk()).id()),
                    _ => s.slot::<T11>().map(|s| s.pin(T11::mk()).id()),
                };
                ids.extend(id);
            }
            let g = call(pan, || unsafe { std::ptr::drop_in_place(st.0) });
            let order = ids.iter().rev().zip(&g.d).filter(|(a, b)| a == b).count();
            (g.res.is_some(), [ids.len() as i64, order as i64, g.d.len() as i64])
        })
        .unwrap()
        .join()
        .unwrap();
    res
}

fn run<M: El>(s: &Script, log: &mut Log) {
    let lay = std::alloc::Layout::from_size_align(8192, 4096).unwrap();
    let mem = unsafe { std::alloc::alloc_zeroed(lay) };
    let st = mem as *mut ExitStack<M>;
    unsafe { st.write(ExitStack::new()) };
    let total = size_of::<ExitStack<M>>();
    let shared = || -> Pin<&'static ExitStack<M>> { unsafe { Pin::new_unchecked(&*st) } };
    let exclusive = || -> Pin<&'static mut ExitStack<M>> { unsafe { Pin::new_unchecked(&mut *st) } };
    let mut slots: Vec<Option<Box<dyn Any2>>> = vec![];
    let mut lives: Vec<Live> = vec![];
    let mut ops = s.ops.clone();
    ops.push(Op { a: "end".into(), x: 0, y: 0, z: 0 });
    for op in &ops {
        let mut r = "ok";
        let mut m = vec![];
        let i = (op.x - 1) as usize;
        let pan = if matches!(op.a.as_str(), "popall" | "set" | "close") { op.x } else { 0 };
        let ended = matches!(op.a.as_str(), "popall" | "set" | "close" | "end");
        if ended {
            slots.clear();
            lives.clear();
        }
        let g = call(pan, || match op.a.as_str() {
            "deep" => {
                let (ok, w) = deep(op.x as usize, op.y);
                if !ok {
                    r = "panic";
                }
                m.extend(w);
            }
            "slot" => {
                let ty = s.cfg[op.x as usize - 1];
                let sl: Option<Box<dyn Any2>> = with_ty!(ty, T => shared().slot::<T>().map(|s| Box::new(Sl(s)) as Box<dyn Any2>));
                if sl.is_none() {
                    r = "none";
                }
                slots.push(sl);
            }
            "dropslot" => match slots.get_mut(i).and_then(|s| s.take()) {
                Some(s) => drop(s),
                None => r = "skip",
            },
            "pin" | "pinl" => match slots.get_mut(i).and_then(|s| s.take()) {
                Some(s) => lives.push(s.pin(op.a == "pinl")),
                None => r = "skip",
            },
            "popall" => exclusive().pop_all(),
            "set" => {
                let p = exclusive().set(M::mk());
                lives.push(live(p));
                slots.push(None);
            }
            "close" | "end" => unsafe { std::ptr::drop_in_place(st) },
            o => panic!("script error {o}"),
        });
        if g.res.is_none() {
            r = "panic";
        }
        if op.a == "close" {
            unsafe { st.write(ExitStack::new()) };
        }
        let mut good = 1;
        for (k, l) in lives.iter().enumerate() {
            let base = mem as usize;
            if (l.deref)() != l.addr || l.addr % l.align != 0 || l.addr < base || l.addr + l.size > base + total {
                good = 0;
            }
            for m in &lives[..k] {
                if l.size > 0 && m.size > 0 && l.addr < m.addr + m.size && m.addr < l.addr + l.size {
                    good = 0;
                }
            }
        }
        let c = lives.iter().map(|l| unsafe { (l.id)(l.addr) }).collect();
        log.event(op, &Obs { r, v: vec![good], d: g.d, c, n: g.n, m, k: 1 });
    }
    unsafe { std::alloc::dealloc(mem, lay) };
}

fn main() {
    drive(|s, log| with_ty!(s.cfg[0], M => run::<M>(s, log)));
}
