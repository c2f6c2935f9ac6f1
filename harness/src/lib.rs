//! Common parts of the drivers: reads scripts, executes them through a per-component
//! interpreter and writes what was observed, one line per event, flushed before the next
//! operation starts, so that a crash of the code under test is attributed to its operation.
use std::cell::{Cell, RefCell};
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};

pub mod track;
pub mod tys;
pub use tys::*;

#[derive(Clone, Debug)]
pub struct Op {
    pub a: String,
    pub x: i64,
    pub y: i64,
    pub z: i64,
}

pub struct Script {
    pub id: String,
    pub cfg: Vec<i64>,
    pub ops: Vec<Op>,
}

#[derive(Clone, Debug, Default)]
pub struct Obs {
    pub r: &'static str,
    pub v: Vec<i64>,
    pub d: Vec<i64>,
    pub c: Vec<i64>,
    pub n: Vec<i64>,
    pub m: Vec<i64>,
    pub k: i64,
}

pub fn ints(out: &mut String, v: &[i64]) {
    out.push('[');
    for (i, x) in v.iter().enumerate() {
        if i > 0 {
            out.push(',');
        }
        out.push_str(&x.to_string());
    }
    out.push(']');
}

thread_local! {
    /// ids whose destructor ran during the current operation
    pub static DROPS: RefCell<Vec<i64>> = const { RefCell::new(Vec::new()) };
    /// ids created during the current operation
    pub static NEW: RefCell<Vec<i64>> = const { RefCell::new(Vec::new()) };
    /// count down to a panicking destructor, 0: none
    pub static PANIC: Cell<i64> = const { Cell::new(0) };
    /// next id
    pub static NEXT: Cell<i64> = const { Cell::new(1) };
    static PANICMSG: RefCell<String> = const { RefCell::new(String::new()) };
}

pub fn fresh() -> i64 {
    NEXT.with(|n| {
        let v = n.get();
        n.set(v + 1);
        v
    })
}
/// Record the drop of `id`; panics if the script asked for it.
pub fn dropped(id: i64) {
    DROPS.with(|d| d.borrow_mut().push(id));
    let p = PANIC.with(|p| p.get());
    if p > 0 {
        PANIC.with(|c| c.set(p - 1));
        if p == 1 {
            panic!("destructor of {id} as scripted");
        }
    }
}

static PROGRESS: AtomicU64 = AtomicU64::new(1);

pub struct Log {
    out: std::io::BufWriter<std::fs::File>,
}

impl Log {
    pub fn new() -> Log {
        let path = std::env::args().nth(2).expect("output path");
        let f = std::fs::OpenOptions::new().create(true).append(true).open(path).unwrap();
        Log { out: std::io::BufWriter::new(f) }
    }
    pub fn line(&mut self, s: &str) {
        PROGRESS.fetch_add(1, SeqCst);
        self.out.write_all(s.as_bytes()).unwrap();
        self.out.write_all(b"\n").unwrap();
        self.out.flush().unwrap();
    }
    /// Tell the watchdog that something happens.
    pub fn alive() {
        PROGRESS.fetch_add(1, SeqCst);
    }
    pub fn begin(&mut self, s: &Script) {
        self.begin_cfg(&s.id, &s.cfg)
    }
    pub fn begin_cfg(&mut self, id: &str, cfg: &[i64]) {
        let mut l = format!("B {} ", id);
        ints(&mut l, cfg);
        self.line(&l);
    }
    pub fn event(&mut self, op: &Op, o: &Obs) {
        let l = event_str(op, o);
        self.line(&l);
    }
    pub fn end(&mut self) {
        self.line("F");
    }
    /// Everything observed in the middle of a script that is explored in many ways.
    pub fn history(&mut self, id: &str, cfg: &[i64], events: &[String]) {
        self.begin_cfg(id, cfg);
        for e in events {
            self.line(e);
        }
        self.end();
    }
}

pub fn event_str(op: &Op, o: &Obs) -> String {
    let mut l = format!("E {{\"op\":{{\"a\":\"{}\",\"x\":{},\"y\":{},\"z\":{}}},\"o\":{{\"r\":\"{}\"", op.a, op.x, op.y, op.z, o.r);
    for (k, s) in [("v", &o.v), ("d", &o.d), ("c", &o.c), ("n", &o.n), ("m", &o.m)] {
        l.push_str(",\"");
        l.push_str(k);
        l.push_str("\":");
        ints(&mut l, s);
    }
    l.push_str(&format!(",\"k\":{}}}}}", o.k));
    l
}

/// Outcome of the guarded call.
pub struct Got<R> {
    pub res: Option<R>,
    pub d: Vec<i64>,
    pub n: Vec<i64>,
}

/// Execute `f` as one observed call: collects destructor runs and created ids, catches panics.
/// `panic_at`: the n-th destructor panics.
pub fn call<R>(panic_at: i64, f: impl FnOnce() -> R) -> Got<R> {
    DROPS.with(|d| d.borrow_mut().clear());
    NEW.with(|d| d.borrow_mut().clear());
    PANIC.with(|p| p.set(panic_at));
    let res = catch_unwind(AssertUnwindSafe(f));
    PANIC.with(|p| p.set(0));
    let d = DROPS.with(|d| std::mem::take(&mut *d.borrow_mut()));
    let n = NEW.with(|d| std::mem::take(&mut *d.borrow_mut()));
    Got { res: res.ok(), d, n }
}

pub fn parse(line: &str) -> Option<Script> {
    let mut parts = line.split('|');
    let head = parts.next()?.trim();
    let body = parts.next().unwrap_or("");
    let mut h = head.split_whitespace();
    let id = h.next()?.to_string();
    let cfg = h
        .next()
        .unwrap_or("")
        .split(',')
        .filter(|s| !s.is_empty())
        .map(|s| s.parse().unwrap())
        .collect();
    let ops = body
        .split(';')
        .filter(|s| !s.trim().is_empty())
        .map(|s| {
            let mut w = s.split_whitespace();
            let a = w.next().unwrap().to_string();
            let mut g = || w.next().map_or(0, |t| t.parse().unwrap());
            Op { a, x: g(), y: g(), z: g() }
        })
        .collect();
    Some(Script { id, cfg, ops })
}

/// Standard main: `bin SCRIPTS OUT [SKIP]`, one history per script.
pub fn drive(mut f: impl FnMut(&Script, &mut Log)) {
    drive_many(|s, log| {
        log.begin(s);
        let r = catch_unwind(AssertUnwindSafe(|| f(s, log)));
        if r.is_err() {
            log.line("X");
        }
        log.end();
    })
}

/// Hundredths of a second this process has used.
fn cpu_ticks() -> u64 {
    let s = std::fs::read_to_string("/proc/self/stat").unwrap_or_default();
    let rest = s.rsplit(')').next().unwrap_or("");
    rest.split_whitespace().skip(11).take(2).filter_map(|x| x.parse::<u64>().ok()).sum()
}

/// Main of drivers that write the histories themselves.
pub fn drive_many(mut f: impl FnMut(&Script, &mut Log)) {
    if std::env::var_os("VH_VERBOSE").is_none() {
        std::panic::set_hook(Box::new(|_| {}));
    }
    let args: Vec<String> = std::env::args().collect();
    let file = std::fs::File::open(&args[1]).expect("scripts");
    let skip: usize = args.get(3).map_or(0, |s| s.parse().unwrap());
    let mut log = Log::new();
    // Watchdog: no progress for a while means the code under test hangs.
    std::thread::spawn(|| {
        let mut last = 0;
        let mut idle = 0;
        let mut cpu = 0;
        loop {
            std::thread::sleep(std::time::Duration::from_millis(500));
            let now = PROGRESS.load(SeqCst);
            if now == last {
                idle += 1;
            } else {
                idle = 0;
                last = now;
                cpu = cpu_ticks();
            }
            // On a busy machine the time that passed says little.
            if (idle >= 20 && cpu_ticks() - cpu >= 600) || idle >= 180 {
                eprintln!("watchdog: hang");
                std::process::exit(97);
            }
        }
    });
    for (i, line) in std::io::BufReader::new(file).lines().enumerate() {
        if i < skip {
            continue;
        }
        let line = line.unwrap();
        let Some(s) = parse(&line) else { continue };
        NEXT.with(|n| n.set(1));
        log.line(&format!("S {}", s.id));
        f(&s, &mut log);
    }
    log.line("Z");
    std::process::exit(0);
}
