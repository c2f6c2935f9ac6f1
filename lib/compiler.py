"""The compiler as the implementation under observation: scripts become safe programs, and what is
recorded of each is whether it is accepted."""
import json, re, shutil, subprocess, time
from . import harness
from .tla import SPECS, ToolError, VERIF

PRELUDE = r"""#![allow(warnings)]
use static_alloc::{bump, leaked::Alloca, leaked::LeakBox, unsync, unsync::MemBump, Bump};
use exit_stack::{ExitStack, Slot};
use without_alloc::{alloc::LocalAllocLeakExt, boxed::Box, fixed_vec::{Drain, FixedVec}, rc::{Rc, Weak}, uninit::{Uninit, UninitView}};
use alloc_traits::{LocalAlloc, Layout as ALayout, NonZeroLayout};
use core::{alloc::Layout, borrow::{Borrow as _, BorrowMut as _}, fmt::Debug, mem::MaybeUninit, pin::Pin};
use core::borrow::{Borrow, BorrowMut};
macro_rules! new_unsize { ($e:expr, dyn $t:ident) => { unsize::CoerceUnsized::unsize($e, unsize::Coercion!(to dyn $t)) } }
macro_rules! old_unsize { ($e:expr, dyn $t:ident) => { unsize_reg::CoerceUnsize::unsize($e, unsize_reg::Coercion!(to dyn $t)) } }
static BUMP: Bump<[u64; 32]> = Bump::uninit();
fn own1() -> Bump<[u64; 32]> { Bump::uninit() }
fn own2() -> unsync::Bump<[u64; 32]> { unsync::Bump::uninit() }
fn own3() -> unsync::Chain { unsync::Chain::new(256).ok().unwrap() }
fn own4() -> Pin<std::boxed::Box<ExitStack<[u64; 4]>>> { std::boxed::Box::pin(ExitStack::new()) }
fn own5() -> MaybeUninit<u32> { MaybeUninit::uninit() }
fn own6() -> [MaybeUninit<u8>; 64] { [MaybeUninit::uninit(); 64] }
fn own7() -> u32 { 7 }
fn own8() -> std::boxed::Box<MemBump> { MemBump::new(256) }
fn own9() -> [MaybeUninit<u32>; 8] { [MaybeUninit::uninit(); 8] }
fn own41() -> &'static str { "a" }
struct Peek<'a>(&'a u32);
impl Drop for Peek<'_> { fn drop(&mut self) {} }
use std::boxed::Box as Std;
use core::{any::Any, cell::Cell};
fn own28() -> &'static Bump<[u64; 32]> { &BUMP }
fn own35() -> Alloca<u32> { Alloca::new(4).unwrap() }
fn level() -> bump::Level { own1().level() }
fn layout() -> Layout { Layout::new::<u32>() }
fn nonzero() -> NonZeroLayout { NonZeroLayout::new::<u32>().unwrap() }
type Guard = std::sync::MutexGuard<'static, u32>;
static LOCK: std::sync::Mutex<u32> = std::sync::Mutex::new(0);
fn val1() -> u32 { 1 }
fn val2() -> Cell<u32> { Cell::new(1) }
fn val3() -> Guard { LOCK.lock().unwrap() }
fn val4() -> std::rc::Rc<u32> { std::rc::Rc::new(1) }
fn look<T: ?Sized>(_: &T) {}
fn u<T: ?Sized>(_: &T) {}
fn m<T>(_: T) {}
fn s<T: 'static>(_: T) {}
fn dup<T: Clone>(t: &T) -> T { t.clone() }
fn moved<T>(t: T) -> T { t }
// a reference is moved, not lent on
macro_rules! i { ($e:expr) => { moved(($e,)).0 } }
"""


TABLE = {"Borrow": "Meth", "Threads": "Acts"}


def table(module):
    """The entries of the table of the specification, and how they read in a program."""
    text = (SPECS / (module + ".tla")).read_text()
    text = text[text.index(TABLE[module] + " == <<"):]
    res = []
    for r in text[:text.index("\n>>")].splitlines()[1:]:
        m = re.match(r'  \w\((.*?)\),? +\\\* (.*)$', r)
        if not m:
            raise ToolError("%s: %r" % (module, r))
        res.append(([x.strip(' "') for x in m.group(1).split(",")], m.group(2)))
    return res


def borrow(script, meth):
    """A function body."""
    cfg, ops = script.split("|", 1)
    root, *made = [x for x in cfg.split(",") if x]
    out = ["let mut o1%s = own%s();" % (": &'static str" if root == "41" else "", root)]
    n = 1
    for w in ["call %d %s 0" % (i + 1, y) for i, y in enumerate(made)] + ops.split(";"):
        if not w.strip():
            continue
        a, x, y, _ = w.split()
        o = "o" + x
        if a == "call":
            row, e = meth[int(y) - 1]
            if row[2] != "0":
                n += 1
                out.append("let mut o%d = %s;" % (n, e.replace("$", o)))
            else:
                out.append(e.replace("$", o) + ";")
        else:
            out.append({"use": "u(&%s);", "give": "m(%s);", "keep": "s(%s);"}[a] % o)
    return " ".join(out)


VALUE = ["u32", "Cell<u32>", "Guard", "std::rc::Rc<u32>"]
STACK = "let mut st = Std::pin(ExitStack::<[u64; 8]>::new()); "
HANDLE = {
    1: "let mut o: Bump<[T; 4]> = Bump::uninit();",
    2: "let mut o: unsync::Bump<[T; 4]> = unsync::Bump::uninit();",
    3: "let mut o = own8();",
    4: "let mut o = own3();",
    5: STACK + "let _ = st.as_ref().slot::<T>().unwrap().pin(V); let mut o = st;",
    6: STACK + "let mut o = st.as_ref().slot::<T>().unwrap(); let mut al = st.as_ref().slot::<T>().unwrap();",
    7: "let bump = own1(); let mut o = bump.rc::<T>(V).unwrap(); let mut al = o.clone();",
    8: "let bump = own1(); let rc = bump.rc::<T>(V).unwrap(); let mut o = Rc::downgrade(&rc); let mut al = o.clone();",
    9: "let bump = own1(); let mut o = bump.boxed::<T>(V).unwrap();",
    10: "let bump = own1(); let mut o = bump.fixed_vec::<T>(2).unwrap(); o.push(V);",
    11: "let bump = own1(); let mut vec = bump.fixed_vec::<T>(2).unwrap(); vec.push(V); let mut o = vec.drain(..);",
    12: "let bump = own1(); let mut o = bump.leak_box::<T>(V).unwrap();",
    13: "let bump = own2(); let mut o = bump.bump_box::<T>().ok().unwrap();",
    14: "let mut o = (level(), ALayout::from(layout()), nonzero(), layout());",
    15: "let bump = Bump::<[u8; 0]>::uninit(); let mut o = bump.leak::<T>(V).err().unwrap();",
    16: "let mut o = LeakBox::into_pin(BUMP.leak_box::<T>(V).unwrap());",
    17: "let mut mem = own6(); let mut o = MemBump::from_mem(&mut mem).ok().unwrap();",
    18: STACK + "let _ = st.as_ref().slot::<T>().unwrap().pin(V); let mut o = st.as_mut();",
    19: "let bump = own1(); let mut o = old_unsize!(bump.boxed::<T>(V).unwrap(), dyn Debug);",
    20: "let mut o = bump::Failure::Exhausted;",
}


def threads(script, acts):
    cfg, ops = script.split("|", 1)
    kind, cl = [int(x) for x in cfg.split(",") if x]
    mode, did = 0, []
    for w in ops.split(";"):
        if w.strip():
            a, x, _, _ = w.split()
            if a == "start":
                mode = int(x)
            else:
                did.append(acts[int(x) - 1])
    val = lambda e: e.replace("VAL", "val%d()" % cl)
    out = "type T = %s; " % VALUE[cl - 1] + HANDLE[kind].replace("(V)", "(val%d())" % cl) + " "
    theirs = mine = ""
    if did:
        row, e = did[0]
        theirs = "let o = &o; " * (row[1] == "sh" and mode != 1) + val(e).replace("$", "o") + ";"
    if len(did) > 1:
        mine = val(did[1][1]).replace("$", "o" if mode == 1 else "al") + ";"
    if mode == 0:
        return out + "{ let mut o = o; %s } %s" % (theirs, mine)
    if mode == 1:
        out += "let o = &o; "
    return out + "std::thread::scope(|scope| { scope.spawn(move || { let mut o = o; %s }); %s });" % (theirs, mine)


def ways(owners, avoid=()):
    """For each kind of object a shortest way to obtain one: its owner and the methods called."""
    meth = table("Borrow")
    res = {k: [(k,)] for k in owners}
    todo = [(k,) for k in owners]
    for w in todo:
        kind = int(meth[w[-1] - 1][0][2]) if len(w) > 1 else w[0]
        for y, (row, _) in enumerate(meth, 1):
            if int(row[0]) == kind and row[2] != "0" and row[1] in ("sh", "ex", "mv") and int(row[2]) not in res:
                res[int(row[2])] = [w + (y,)]
                todo.append(w + (y,))
    return [w for k in sorted(res) for w in res[k]]


MAKE = {"Borrow": borrow, "Threads": threads}
PKG = VERIF / "work" / "programs"


def manifest():
    t = (harness.HARNESS / "Cargo.toml").read_text().replace('path = "shim"', 'path = "%s"' % (harness.HARNESS / "shim"))
    PKG.mkdir(parents=True, exist_ok=True)
    (PKG / "Cargo.toml").write_text(t)
    shutil.copy(harness.HARNESS / "Cargo.lock", PKG / "Cargo.lock")
    shutil.rmtree(PKG / "src", ignore_errors=True)
    (PKG / "src" / "bin").mkdir(parents=True)


def verdicts(module, scripts, timeout=600, per=2000):
    """acc, rej (memory or lifetime errors) or typ (any other error) for each script."""
    meth = table(module)
    manifest()
    res, first = {}, {}
    names = []
    npart = max(1, min(8, (len(scripts) + 99) // 100))
    for k in range(npart):
        mine = range(k, len(scripts), npart)
        pre = PRELUDE.count("\n")
        (PKG / "src" / "bin" / ("p%d.rs" % k)).write_text(
            PRELUDE + "".join("fn f%d() { %s }\n" % (i, MAKE[module](scripts[i], meth)) for i in mine) + "fn main() {}\n")
        names.append(("p%d" % k, pre, list(mine)))
    where = {n: (pre, mine) for n, pre, mine in names}
    e = harness.env()
    try:
        p = subprocess.run(["cargo", "check", "--offline", "--quiet", "--bins", "--keep-going", "--message-format=json"],
                           cwd=PKG, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise ToolError("the compiler timed out")
    failed = set()
    for line in p.stdout.splitlines():
        if not line.startswith("{"):
            continue
        d = json.loads(line)
        if d.get("reason") != "compiler-message" or d["message"]["level"] not in ("error", "error: internal compiler error"):
            continue
        t, msg = d["target"]["name"], d["message"]
        if t not in where:
            raise ToolError("does not build: " + (msg.get("rendered") or "")[:2000])
        code = (msg.get("code") or {}).get("code")
        # where the program is at fault, not a macro it uses
        at = [y["line_start"] for x in msg["spans"] if x["is_primary"] for y in chain(x) if y["file_name"].endswith("%s.rs" % t)]
        if not at:
            if msg["spans"]:
                raise ToolError("error at an unknown place: " + (msg.get("rendered") or "")[:2000])
            continue  # the final count of errors
        pre, mine = where[t]
        k = at[-1] - pre - 1
        if not 0 <= k < len(mine):
            raise ToolError("programs do not build: " + (msg.get("rendered") or "")[:2000])
        v = "rej" if code in BORROWCK else "typ"
        i = mine[k]
        failed.add(t)
        if res.get(i) != "typ":
            res[i] = v
            first[i] = msg["message"]
    if p.returncode == 0 and res or p.returncode and not res:
        raise ToolError("the compiler failed: " + p.stderr[-2000:] + p.stdout[-2000:])
    return [(res.get(i, "acc"), first.get(i)) for i in range(len(scripts))]


def chain(span):
    while span:
        yield span
        x = span.get("expansion")
        span = x["span"] if x else None


# use of moved or borrowed things, and lifetime errors (which have no code)
BORROWCK = {None, "E0381", "E0382", "E0384", "E0492", "E0493", "E0499", "E0500", "E0501", "E0502", "E0503", "E0505", "E0506", "E0507",
            "E0515", "E0521", "E0594", "E0596", "E0597", "E0621", "E0700", "E0712", "E0713", "E0716"}


def run(module, scripts, stats=None):
    """Histories: the operations, then the verdict."""
    hs = []
    ok = dict(r="ok", v=[], d=[], c=[], n=[], m=[], k=1)
    meth = table(module)
    vs = verdicts(module, scripts) if scripts else []
    for i, (s, (v, why)) in enumerate(zip(scripts, vs)):
        cfg, body = s.split("|", 1)
        ev = [dict(op=harness.parse_op(w), o=ok) for w in body.split(";") if w.strip()]
        ev.append(dict(op=harness.END, o=dict(ok, r=v)))
        hs.append(dict(i=str(i), cfg=[int(x) for x in cfg.split(",") if x], ev=ev, bad=None, script=s, why=why, program=MAKE[module](s, meth)))
        if stats is not None:
            stats[v] = stats.get(v, 0) + 1
    return hs
