//! A tracking global allocator (used by the drivers that observe heap blocks).
//! While tracking is on, blocks are placed at a chosen address modulo 4096 between guard bytes,
//! never reused and never really freed before `clear`: released blocks are overwritten instead.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, UnsafeCell};

#[derive(Clone, Copy)]
pub struct Block {
    pub raw: *mut u8,
    pub ptr: usize,
    pub layout: Layout,
    pub freed: bool,
}

/// What happened while tracking was on.
#[derive(Clone, Copy, Debug)]
pub enum Ev {
    Alloc { id: usize, size: usize, align: usize },
    /// `same`: with the layout the block was obtained with
    Free { id: usize, same: bool },
    /// not a live block
    Bad(usize),
}

#[derive(Clone, Copy, PartialEq)]
pub enum Mode {
    Off,
    /// track every block
    Full,
    /// only count
    Count,
}

const MAX: usize = 1024;
struct Tab {
    blocks: UnsafeCell<[Option<Block>; MAX]>,
    n: Cell<usize>,
    ev: UnsafeCell<[Option<Ev>; MAX]>,
    nev: Cell<usize>,
    mode: Cell<Mode>,
    offset: Cell<usize>,
    refuse: Cell<bool>,
    counts: Cell<(usize, usize, usize, usize)>,
}
thread_local! {
    static T: Tab = const { Tab {
        blocks: UnsafeCell::new([None; MAX]),
        n: Cell::new(0),
        ev: UnsafeCell::new([None; MAX]),
        nev: Cell::new(0),
        mode: Cell::new(Mode::Off),
        offset: Cell::new(0),
        refuse: Cell::new(false),
        counts: Cell::new((0, 0, 0, 0)),
    } };
}

pub struct Track;
fn note(t: &Tab, e: Ev) {
    let k = t.nev.get();
    if k < MAX {
        unsafe { (*t.ev.get())[k] = Some(e) };
        t.nev.set(k + 1);
    }
}
unsafe impl GlobalAlloc for Track {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        T.try_with(|t| match t.mode.get() {
            Mode::Off => System.alloc(l),
            Mode::Count => {
                let c = t.counts.get();
                t.counts.set((c.0 + 1, c.1, c.2 + l.size(), c.3));
                System.alloc(l)
            }
            Mode::Full => {
                let k = t.n.get();
                if t.refuse.get() || k >= MAX || l.size() > 1 << 20 {
                    return std::ptr::null_mut();
                }
                let total = Layout::from_size_align(l.size() + 12288, 4096).unwrap();
                let raw = System.alloc(total);
                raw.write_bytes(0x5A, total.size());
                let mut off = 4096 + t.offset.get();
                off = (off + l.align() - 1) / l.align() * l.align();
                let p = raw.add(off);
                p.write_bytes(0xA5, l.size());
                (*t.blocks.get())[k] = Some(Block { raw, ptr: p as usize, layout: l, freed: false });
                t.n.set(k + 1);
                note(t, Ev::Alloc { id: k + 1, size: l.size(), align: l.align() });
                p
            }
        })
        .unwrap_or(std::ptr::null_mut())
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let full = T.try_with(|t| {
            if t.mode.get() == Mode::Count {
                let c = t.counts.get();
                t.counts.set((c.0 + 1, c.1, c.2 + l.size(), c.3));
            }
            t.mode.get() == Mode::Full
        });
        if !full.unwrap_or(false) {
            // untouched pages, however large
            return System.alloc_zeroed(l);
        }
        let p = self.alloc(l);
        if !p.is_null() {
            p.write_bytes(0, l.size());
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let known = T
            .try_with(|t| {
                if t.mode.get() == Mode::Count {
                    let c = t.counts.get();
                    t.counts.set((c.0, c.1 + 1, c.2, c.3 + l.size()));
                    return false;
                }
                let n = t.n.get();
                for (i, b) in (*t.blocks.get())[..n].iter_mut().enumerate() {
                    let b = b.as_mut().unwrap();
                    let end = b.ptr + b.layout.size().max(1);
                    if b.ptr <= p as usize && (p as usize) < end {
                        if b.freed || b.ptr != p as usize {
                            note(t, Ev::Bad(i + 1));
                        } else {
                            b.freed = true;
                            note(t, Ev::Free { id: i + 1, same: b.layout == l });
                            p.write_bytes(0xDD, b.layout.size());
                        }
                        return true;
                    }
                }
                if t.mode.get() == Mode::Full {
                    note(t, Ev::Bad(0));
                    return true;
                }
                false
            })
            .unwrap_or(false);
        if !known {
            System.dealloc(p, l);
        }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if T.try_with(|t| t.mode.get() == Mode::Off && t.n.get() == 0).unwrap_or(false) {
            return System.realloc(p, l, n);
        }
        let nl = Layout::from_size_align_unchecked(n, l.align());
        let q = self.alloc(nl);
        if !q.is_null() {
            std::ptr::copy_nonoverlapping(p, q, n.min(l.size()));
            self.dealloc(p, l);
        }
        q
    }
}

pub fn mode(m: Mode) {
    T.with(|t| t.mode.set(m))
}
/// Run with tracking; restores even when unwinding.
pub fn tracked<R>(m: Mode, f: impl FnOnce() -> R) -> R {
    struct Off(Mode);
    impl Drop for Off {
        fn drop(&mut self) {
            mode(self.0)
        }
    }
    let _g = Off(T.with(|t| t.mode.replace(m)));
    f()
}
pub fn untracked<R>(f: impl FnOnce() -> R) -> R {
    tracked(Mode::Off, f)
}
pub fn offset(o: usize) {
    T.with(|t| t.offset.set(o))
}
pub fn refuse(r: bool) {
    T.with(|t| t.refuse.set(r))
}
pub fn counts() -> (usize, usize, usize, usize) {
    T.with(|t| t.counts.replace((0, 0, 0, 0)))
}
pub fn events() -> Vec<Ev> {
    untracked(|| {
        T.with(|t| {
            let n = t.nev.replace(0);
            unsafe { (*t.ev.get())[..n].iter().map(|e| e.unwrap()).collect() }
        })
    })
}
/// Block and offset in it.
pub fn find(p: usize) -> Option<(usize, usize)> {
    T.with(|t| unsafe {
        (*t.blocks.get())[..t.n.get()].iter().enumerate().find_map(|(i, b)| {
            let b = b.unwrap();
            (b.ptr <= p && p <= b.ptr + b.layout.size()).then(|| (i + 1, p - b.ptr))
        })
    })
}
/// Are all guard bytes intact?
pub fn guards() -> bool {
    T.with(|t| unsafe {
        (*t.blocks.get())[..t.n.get()].iter().all(|b| {
            let b = b.unwrap();
            (1..=64).all(|i| ((b.ptr - i) as *const u8).read_volatile() == 0x5A)
                && (0..64).all(|i| ((b.ptr + b.layout.size() + i) as *const u8).read_volatile() == 0x5A)
        })
    })
}
/// Really free everything.
pub fn clear() {
    T.with(|t| unsafe {
        for b in (*t.blocks.get())[..t.n.get()].iter_mut() {
            let b = b.take().unwrap();
            System.dealloc(b.raw, Layout::from_size_align(b.layout.size() + 12288, 4096).unwrap());
        }
        t.n.set(0);
        t.nev.set(0);
        t.refuse.set(false);
    })
}
