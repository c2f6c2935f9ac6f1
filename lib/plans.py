"""What is explored for each property, per tier."""
from . import compiler
from .engine import Part, Design

PLANS = {}


def prop(f):
    PLANS[f.__name__] = f
    return f


def plan(p, tier):
    return PLANS[p](tier == "thorough")


# ---------------------------------------------------------------------- Bump
# cfg = [storage type, address modulo 65536, constructor]
B_MC = [(2, 8, 0), (9, 4088, 1), (10, -1, 0), (3, 8, 2)]
B_SIM = [(s, b, c) for s, b, c in [(1, 8, 0), (2, 16, 1), (3, 24, 2), (4, 64, 0), (5, 8, 0), (6, 40, 0), (7, 48, 1), (8, 8, 0), (8, 56, 2),
                                   (4, 128, 2), (6, 8, 1), (8, 2040, 0), (8, 65512, 1), (3, 8176, 0), (6, 4072, 1), (8, 32751, 0), (10, -1, 1)]]
# addresses shortly before a multiple of 128, 256, ...; a storage with room for large requests
B_WIDE = [(8, (1 << k) - 24, k % 3) for k in range(7, 15)] + [(11, b, 0) for b in (8, 1000, 2064, 8200, 40001, 65400)]
# the programs that are run in all interleavings
REQ2 = {1, 2, 4, 9, 10, 15, 14, 3}


def bump_parts(accept, th):
    seq = Part("bump_seq", "Bump", "bump",
               mc=[dict(consts={}, cfgs=B_MC if th else B_MC[:3], props=("Monotone",), cap=None if th else 25000)],
               sim=[dict(consts={}, cfgs=B_SIM, num=3000 if th else 150, depth=14),
                    dict(consts={}, cfgs=B_SIM, num=1000 if th else 40, depth=40),
                    dict(consts={}, cfgs=B_WIDE, num=600 if th else 25, depth=16)],
               accept=accept, vinvs=(), profiles=("dev", "plain"))
    def progs(nt, ln, reqs, pre, cfgs, cap):
        return dict(consts=dict(NT=nt, Len1=ln, Requests=reqs, Pre=1, Prefixes=pre), cfgs=cfgs, cap=cap)
    con = Part("bump_conc", "BumpProg", "bump",
               mc=[progs(2, 2, REQ2, {1}, [(3, 8, 0)], None if th else 400),
                   progs(3, 1, set(range(1, 37)) - {16}, {7}, [(8, 8, 0)], None if th else 300),
                   progs(2, 1, set(range(1, 37)) - {16}, {1, 3}, [(3, 8, 0), (6, 4080, 0), (2, 8, 0)], None if th else 300),
                   progs(2, 2, {1, 9, 32, 33, 34, 36}, {1, 3}, [(8, 8, 0), (3, 8, 1)], None if th else 120),
                   progs(3, 2, {1, 2, 9} if th else {1, 9}, {1}, [(3, 8, 0)], 600 if th else 20)],
               vmodule="Bump", vconsts={}, accept=accept, vinvs=(), args=("3000", "1500") if th else ("600", "100"),
               profiles=("dev", "plain"))
    return [seq, con]


def bump_design(th):
    progs = "={s \\in UNION {[1..n -> {1, 4, 9, 10, 14, 15%s}] : n \\in 1..2} : TRUE}" % (", 2, 3, 8, 18" if th else "")
    return [Design("bump_cas", "BumpCas", consts=dict(Threads={1, 2}, Progs=progs), cfgs=[(3, 8, 0), (2, 8, 0)],
                   init="CInit", next_="CNext", view="CView", invs=("CInv",), props=("Refines",)),
            Design("bump_cas3", "BumpCas", consts=dict(Threads={1, 2, 3}, Progs="={s \\in [1..1 -> {1, 4, 9, 10, 14, 15%s}] : TRUE}" % (", 2, 3, 8, 18" if th else "")),
                   cfgs=[(3, 8, 0), (2, 8, 0)], init="CInit", next_="CNext", view="CView", invs=("CInv",), props=("Refines",)),
            Design("bump_live", "BumpCas", consts=dict(Threads={1, 2, 3} if th else {1, 2}, Progs="={<<1, 9>>, <<4, 1>>, <<10, 2>>}"), cfgs=[(3, 8, 0)],
                   init="CInit", next_="CNext", fair="\\A t \\in Threads : WF_allvars(Step(t))", vars_="allvars", props=("Terminates",))]


@prop
def C01(th):
    return bump_parts("Safe", th)


@prop
def C02(th):
    return bump_design(th) + bump_parts("Lin", th)


# --------------------------------------------------------------- unsync Bump
# cfg: see specs/MemBump.tla
M_MC = [(1, 9, 40, 0), (2, 40, 3, 0), (1, 10, 8, 1), (4, 80, 0, 0)]
M_SIM = [(1, s, b, z) for s, b in [(1, 8), (2, 16), (3, 24), (4, 64), (4, 128), (5, 8), (6, 40), (7, 48), (7, 16), (8, 8), (9, 0), (10, 2032), (8, 65496), (8, 4072), (7, 8160)] for z in (0, 1)] \
    + [(2, n, o, 0) for n, o in [(0, 0), (3, 1), (7, 0), (8, 0), (8, 1), (9, 0), (15, 1), (16, 8), (17, 5), (40, 0), (63, 7), (100, 8), (130, 61), (130, 65487), (100, 4051), (90, 32730)]] \
    + [(3, n, b, 0) for n, b in [(0, 16), (1, 8), (7, 24), (8, 16), (9, 64), (24, 4088), (100, 32), (101, 8), (1000, 3000)]] + [(4, 80, 0, 0)]
M_WIDE = [(1, 8, (1 << k) - 32, k % 2) for k in range(7, 15)] + [(1, 11, b, 0) for b in (8, 1000, 40008, 65400)] \
    + [(2, n, o, 0) for n, o in [(100001, 3), (70000, 2051), (90007, 65497)]] + [(3, n, b, 0) for n, b in [(100000, 8), (66001, 120), (77777, 2040)]]


@prop
def C06(th):
    return [Part("membump", "MemBump", "membump",
                 mc=[dict(consts=dict(HS=3, HA=2) if th else dict(HS=2, HA=1), cfgs=[m], cap=60000 if th else 8000) for m in M_MC],
                 sim=[dict(consts=dict(HS=3, HA=3), cfgs=M_SIM, num=6000 if th else 400, depth=10),
                      dict(consts=dict(HS=3, HA=3), cfgs=M_SIM, num=2000 if th else 100, depth=30),
                      dict(consts=dict(HS=3, HA=3), cfgs=M_WIDE, num=800 if th else 40, depth=16)],
                 vconsts=dict(HS=3, HA=3), accept="Accept", vinvs=("Inv",), profiles=("dev", "plain"))]


# -------------------------------------------------------------------- Alloca
@prop
def C08(th):
    return [Part("alloca", "Alloca", "alloca",
                 mc=[dict(consts=dict(Tiers=set(range(0, 22))), cfgs=[(t,) for t in (*range(1, 12), 13, 14)])],
                 accept="Accept", profiles=("dev", "plain"))]


# ------------------------------------------------------- values in allocators
# cfg = [allocator, storage, first type, second type]
L_CFG = [(a, s, t, u) for a in (1, 2) for s, t, u in [(2, 2, 6), (3, 7, 1), (3, 4, 5), (1, 3, 2), (4, 9, 8), (4, 10, 7), (2, 11, 3), (5, 13, 1), (5, 9, 13)]]


@prop
def C03(th):
    return [Part("leak", "Leak", "leak",
                 mc=[dict(consts=dict(MaxItems=2, MaxId=3), cfgs=[(1, 2, 2, 6), (2, 3, 7, 1), (1, 3, 4, 5)], maxlen=5 if th else 4, cap=200000 if th else 12000)],
                 sim=[dict(consts=dict(MaxItems=6, MaxId=14), cfgs=L_CFG, num=2000 if th else 100, depth=14),
                      dict(consts=dict(MaxItems=20, MaxId=60), cfgs=L_CFG, num=600 if th else 20, depth=40)],
                 accept="Accept", vinvs=("Inv",), profiles=("dev", "plain"))]


# --------------------------------------------------------------------- bytes
# cfg = [kind, ctor, size, storage type]
BY_CFG = [(k, c, n, t) for n, t in [(1, 1), (16, 2), (40, 3), (64, 4), (0, 5), (41, 6), (48, 7), (24, 9)] for k, c in [(1, 0), (1, 1), (1, 2), (2, 0), (2, 1)]] \
    + [(3, 2, n, 5) for n in (0, 8, 24, 40)]
BY_BIG = [(k, c, n, t) for n, t in [(5001, 10), (2400, 11), (258, 12)] for k, c in [(1, 0), (1, 1), (1, 2), (2, 0), (2, 1)]] + [(3, 2, n, 5) for n in (256, 1000, 6000)]


@prop
def C04(th):
    return [Part("bytes", "Bytes", "bytes",
                 mc=[dict(consts=dict(MaxAlloc=3, MaxStamp=2), cfgs=[(1, 2, 16, 2), (1, 1, 24, 9), (2, 1, 24, 9), (3, 2, 24, 5)],
                          maxlen=6 if th else 5, cap=40000 if th else 6000)],
                 sim=[dict(consts=dict(MaxAlloc=6, MaxStamp=12), cfgs=BY_CFG, num=2000 if th else 200, depth=10),
                      dict(consts=dict(MaxAlloc=9, MaxStamp=40), cfgs=BY_CFG, num=600 if th else 50, depth=30),
                      dict(consts=dict(MaxAlloc=6, MaxStamp=12), cfgs=BY_BIG, num=20 if th else 3, depth=10)],
                 accept="Accept", vinvs=(), props=("OnlyWrites",), profiles=("dev", "plain"))]


# ------------------------------------------------------- allocator interfaces
# cfg = [kind, size, constructor]
AT_CFG = [(k, n, c) for k, c in ((1, 0), (2, 0), (3, 0), (4, 0), (1, 1), (2, 1), (2, 2)) for n in (64, 160)] + [(1, 16, 0), (2, 16, 1)]
AT_BIG = [(k, 20000, c) for k, c in ((1, 0), (2, 0), (3, 0), (4, 0), (1, 1), (2, 2))]


@prop
def C05(th):
    return [Part("alloctrait", "AllocTrait", "alloctrait",
                 mc=[dict(consts=dict(MaxBlocks=2, Sizes={1, 8, 24}, Aligns={1, 8}), cfgs=[(1, 64, 0), (2, 64, 1), (3, 64, 0)],
                          maxlen=5 if th else 4, cap=60000 if th else 5000)],
                 sim=[dict(consts=dict(MaxBlocks=6, Sizes={1, 3, 8, 16, 24, 40}, Aligns={1, 2, 8, 16, 32}), cfgs=AT_CFG, num=2000 if th else 100, depth=12),
                      dict(consts=dict(MaxBlocks=12, Sizes={1, 3, 8, 16, 24}, Aligns={1, 2, 8, 16}), cfgs=AT_CFG, num=800 if th else 30, depth=30),
                      dict(consts=dict(MaxBlocks=6, Sizes={16, 129, 255, 300, 1100, 4200}, Aligns={1, 8, 64, 512, 4096}), cfgs=AT_BIG, num=40 if th else 6, depth=14)],
                 vconsts=dict(MaxBlocks=2, Sizes={1}, Aligns={1}),
                 accept="Accept", vinvs=(), profiles=("dev", "plain"))]


# --------------------------------------------------------------------- Chain
# cfg = [address of blocks modulo 4096, first type, second type]
CH_CFG = [(o, t, u) for o, t, u in [(0, 3, 2), (8, 7, 1), (40, 4, 5), (16, 9, 10), (24, 6, 8), (48, 7, 9), (8, 2, 11), (8, 13, 1), (32, 7, 13), (1000, 14, 3)]]


def deep(th):
    return lambda seed: ["8,3,2|deep %d %d 0" % (n, m) for n in (2, 3, 50, 30000) + ((200000,) if th else ()) for m in (0, 1)]


@prop
def C07(th):
    return [Part("chain", "Chain", "chain",
                 mc=[dict(consts=dict(MaxLinks=3, MaxItems=2, Sizes={0, 40}, Fills=set()), cfgs=[(8, 7, 1), (0, 3, 5)], maxlen=7 if th else 6, cap=60000 if th else 6000)],
                 sim=[dict(consts=dict(MaxLinks=6, MaxItems=8, Sizes={0, 1, 8, 13, 24, 64, 150}, Fills=set()), cfgs=CH_CFG, num=3000 if th else 300, depth=14),
                      dict(consts=dict(MaxLinks=12, MaxItems=20, Sizes={0, 16, 40, 90}, Fills=set()), cfgs=CH_CFG, num=1500 if th else 100, depth=36),
                      dict(consts=dict(MaxLinks=5, MaxItems=8, Sizes={255, 256, 301, 4099, 66001, 1000003}, Fills={3, 40, 300, 9000}), cfgs=CH_CFG, num=100 if th else 8, depth=14)],
                 accept="Accept", vinvs=("Inv",), gen=deep(th), profiles=("dev", "plain"))]


# ----------------------------------------------------------------- ExitStack
# cfg = [type of the memory, first type, second type]
ES_CFG = [(9, 3, 5), (7, 2, 1), (4, 5, 1), (9, 4, 7), (3, 3, 4), (5, 6, 1), (9, 6, 10), (11, 5, 2), (9, 8, 3), (13, 3, 1), (13, 9, 10), (13, 5, 4), (13, 8, 13), (14, 3, 14), (14, 9, 2)]


def deep_stack(th):
    return lambda seed: ["9,3,5|deep %d %d 0" % (n, p) for n in (2, 7, 300, 4000) for p in (0, 1, 2, n // 2, n)]


@prop
def C09(th):
    return [Part("exitstack", "ExitStack", "exitstack",
                 mc=[dict(consts=dict(MaxSlots=4, MaxId=4), cfgs=[(9, 3, 5), (7, 2, 1), (4, 5, 7)], maxlen=8 if th else 7, cap=100000 if th else 8000)],
                 sim=[dict(consts=dict(MaxSlots=8, MaxId=12), cfgs=ES_CFG, num=3000 if th else 300, depth=14),
                      dict(consts=dict(MaxSlots=8, MaxId=40), cfgs=ES_CFG, num=1000 if th else 100, depth=40)],
                 gen=deep_stack(th), accept="Accept", profiles=("dev", "plain"))]


# ------------------------------------------------------------------------ Rc
# cfg = [type], 12: a value that may hold a handle
RC_CFG = [(t,) for t in range(1, 15)]


@prop
def C13(th):
    return [Part("rc", "Rc", "rc",
                 mc=[dict(consts=dict(MaxBlocks=2, MaxHandles=4 if th else 3, MaxId=2, Many=set()), cfgs=[(12,)], cap=200000 if th else 12000, maxlen=9 if th else 7),
                     dict(consts=dict(MaxBlocks=2, MaxHandles=4, MaxId=3, Many=set()), cfgs=[(3,), (5,)], cap=100000 if th else 5000, maxlen=9 if th else 6)],
                 sim=[dict(consts=dict(MaxBlocks=6, MaxHandles=16, MaxId=24, Many=set()), cfgs=[(12,)], num=2000 if th else 100, depth=20),
                      dict(consts=dict(MaxBlocks=6, MaxHandles=24, MaxId=40, Many=set()), cfgs=[(12,)], num=1000 if th else 40, depth=50),
                      dict(consts=dict(MaxBlocks=6, MaxHandles=16, MaxId=24, Many=set()), cfgs=RC_CFG, num=2000 if th else 80, depth=20),
                      dict(consts=dict(MaxBlocks=3, MaxHandles=14, MaxId=12, Many={126, 127, 128, 254, 255, 256, 257, 32767, 65534, 65536}), cfgs=RC_CFG, num=400 if th else 15, depth=18)],
                 profiles=("dev", "plain"))]


# ----------------------------------------------------------------------- Box
# cfg = [first type, second type]
BX_CFG = [(t, u) for t, u in [(1, 2), (3, 5), (4, 6), (7, 1), (9, 8), (10, 11), (2, 9), (13, 3), (14, 2)]]


@prop
def C14(th):
    offs = {0, 1, 2, 4, 8, 16, 24, 32, 63}
    return [Part("boxed", "Box", "boxed",
                 mc=[dict(consts=dict(MaxHandles=2, MaxId=6, Sizes={0, 24}, Offs={0, 4}), cfgs=[(2, 3), (5, 6)], cap=100000 if th else 8000, maxlen=7 if th else 5)],
                 sim=[dict(consts=dict(MaxHandles=4, MaxId=20, Sizes={0, 1, 2, 3, 4, 8, 9, 16, 23, 24, 32, 33, 64, 72, 95, 96, 191, 192, 320, 321, 336, 1024, 1200, 4100}, Offs=offs), cfgs=BX_CFG, num=3000 if th else 200, depth=16),
                      dict(consts=dict(MaxHandles=8, MaxId=60, Sizes={64, 95, 96, 192, 200, 336}, Offs={0, 16, 32, 24}), cfgs=BX_CFG, num=2000 if th else 100, depth=40)],
                 profiles=("dev", "plain"))]


# -------------------------------------------------------------------- Uninit
# cfg = [offset of the region, its length]
UN_CFG = [(o, n) for o in (0, 1, 4, 8, 24, 63) for n in (0, 1, 8, 31, 64, 150)]


@prop
def C10(th):
    b = {0, 1, 2, 3, 4, 7, 8, 9, 16, 24, 32, 33, 64, 65, 100, 150, -1, -2, -3}
    return [Part("uninit", "Uninit", "uninit",
                 mc=[dict(consts=dict(MaxHandles=3, Types={2, 3, 5}, Bytes={0, 3, 8, -1}, Counts={0, 1, 2, -2}, Aligns={1, 8}), cfgs=[(4, 26), (0, 16)],
                          cap=100000 if th else 10000, maxlen=4)],
                 sim=[dict(consts=dict(MaxHandles=8, Types=set(range(0, 12)), Bytes=b, Counts={0, 1, 2, 3, 5, 9, -1, -2, -3}, Aligns={1, 2, 4, 8, 16, 64}), cfgs=UN_CFG,
                           num=400 if th else 30, depth=14),
                      dict(consts=dict(MaxHandles=16, Types={1, 2, 3, 8, 10, 5, 6}, Bytes=b, Counts={0, 1, 2, 3, 5, 9, -1}, Aligns={1, 4, 16}), cfgs=[(o, 150) for o in (0, 1, 8, 24)] + [(3, 600)],
                           num=200 if th else 12, depth=40),
                      dict(consts=dict(MaxHandles=10, Types={0, 1, 2, 3, 4, 5, 7, 9, 10, 13, 14}, Bytes={0, 8, 127, 255, 256, 257, 1000, 4096, 65535, 65536, 70000}, Counts={0, 1, 2, 127, 255, 256, 300, 4095, 65535, 65536}, Aligns={1, 8, 64, 128, 512, 1024, 4096, 8192}),
                           cfgs=[(0, 300), (8, 4200), (1, 70000), (0, 140000), (4090, 30000)], num=30 if th else 4, depth=12)],
                 profiles=("dev", "plain"))]


# ------------------------------------------------------------------- LeakExt
# cfg = [kind of allocator, size of the memory, its address modulo 64, extra bytes granted]
LE_CFG = [(1, n, b, 0) for n in (8, 32, 96, 240, 640) for b in (0, 8, 24, 56)] + [(2, n, b, e) for n in (24, 96, 640) for b, e in ((0, 0), (8, 0), (4, 5), (16, 24), (63, 1))]


@prop
def C15(th):
    lays = "={<<1, 1>>, <<8, 8>>, <<5, 16>>, <<40, 4>>, <<64, 64>>, <<-1, 8>>}"
    return [Part("leakext", "LeakExt", "leakext",
                 mc=[dict(consts=dict(MaxItems=2, MaxId=5, Types={3, 5}, Lays="={<<5, 8>>, <<-1, 1>>}", Counts={0, 1, 3, -1}), cfgs=[(1, 32, 8, 0), (2, 40, 4, 5)],
                          cap=100000 if th else 8000, maxlen=4 if th else 3),
                     dict(consts=dict(MaxItems=1, MaxId=6, Types=set(range(1, 12)), Lays=lays, Counts={0, 1, 2, 3, 4, 10, -1, -2, -3}), cfgs=[(1, 240, 8, 0), (1, 8, 0, 0), (2, 96, 1, 5), (2, 96, 16, 0)],
                          cap=50000 if th else 8000, maxlen=3 if th else 2)],
                 sim=[dict(consts=dict(MaxItems=6, MaxId=20, Types=set(range(1, 12)), Lays=lays, Counts={0, 1, 2, 3, 4, 10, -1, -2, -3}), cfgs=LE_CFG, num=400 if th else 30, depth=12),
                      dict(consts=dict(MaxItems=16, MaxId=60, Types=set(range(1, 12)), Lays=lays, Counts={0, 1, 2, 3, 6}), cfgs=[c for c in LE_CFG if c[1] == 640], num=400 if th else 30, depth=40),
                      dict(consts=dict(MaxItems=10, MaxId=2000, Types=set(range(2, 14)) - {10, 12}, Lays="={<<300, 1>>, <<4096, 8>>, <<255, 64>>, <<65536, 1>>, <<16, 4096>>, <<5000, 1024>>, <<1, 256>>}", Counts={0, 3, 127, 128, 255, 256, 257, 300, 3500, -1}),
                           cfgs=[(1, 20000, 8, 0), (1, 80000, 56, 0), (2, 20000, 4, 300), (2, 100000, 16, 0), (2, 50000, 4088, 0)], num=40 if th else 4, depth=14)],
                 accept="Accept", profiles=("dev", "plain"))]


# ---------------------------------------------------------------------- Fill
# cfg = [kind, capacity, type, initial items, rotation of a queue, size hint: 0 none, 1 exact, 2 and 3 loose]
FI_CFG = [(1, 1, t, i, 0, h) for t, i, h in ((3, 0, 0), (5, 0, 2), (4, 1, 1))] \
    + [(k, n, t, i, r, h) for k in (2, 3, 12, 13, 22, 23) for n, t, i, r, h in ((0, 3, 0, 0, 0), (1, 2, 0, 0, 1), (3, 4, 1, 2, 2), (4, 7, 4, 3, 1), (5, 9, 2, 4, 3), (2, 5, 1, 0, 0))] \
    + [(k, n, t, 0, 0, h) for k in (5, 6) for n, t, h in ((0, 3, 0), (1, 4, 1), (4, 2, 2), (5, 7, 1), (3, 5, 0), (3, 6, 3))] \
    + [(k, n, t, i, 0, h) for k in (17, 27) for n, t, i, h in ((0, 3, 0, 0), (2, 5, 1, 1), (4, 4, 0, 2), (5, 7, 2, 3))] \
    + [(4, 0, 3, 0, 0, 2), (14, 0, 3, 0, 0, 1)] + [(k, 1, t, i, 0, h) for k in (11, 21) for t, i, h in ((3, 0, 2), (5, 0, 1), (4, 1, 3))]
FI_BIG = [(k, n, t, i, r, h) for k in (2, 3, 12, 13, 23) for n, t, i, r, h in ((256, 3, 100, 60, 0), (511, 8, 0, 0, 2), (700, 4, 3, 650, 1))] \
    + [(k, 3, 13, 1 if k < 5 else 0, 0, 2) for k in (2, 3, 12, 13, 5, 6)] + [(1, 1, 13, 0, 0, 0)] \
    + [(k, n, t, 0, 0, h) for k in (5, 6) for n, t, h in ((300, 3, 1), (520, 8, 3))]


@prop
def C16(th):
    src = {0, 1, 2, 3, 4, 7, -1, 1000, 1001, 1003, 2000, 2002}
    err = {0, 1, 2, 3, 4, 6, 1001, 1002, 1003, 1005}
    return [Part("fill", "Fill", "fill",
                 mc=[dict(consts=dict(MaxId=12, Sources=src, Errors=err, Drains={0, 2}), cfgs=FI_CFG, cap=200000 if th else 25000, maxlen=2),
                     dict(consts=dict(MaxId=9, Sources={0, 2, -1, 2001}, Errors={0, 2, 1001}, Drains={1}), cfgs=FI_CFG, cap=200000 if th else 10000, maxlen=4 if th else 3)],
                 sim=[dict(consts=dict(MaxId=60, Sources=src, Errors=err | {8, 9}, Drains={0, 1, 3}), cfgs=FI_CFG, num=400 if th else 30, depth=12),
                      dict(consts=dict(MaxId=2000, Sources={0, 2, 130, 255, 256, 300, 512, -1, 1128, 1255, 2257}, Errors={0, 5, 200, 256, 1128, 1255}, Drains={0, 3}), cfgs=FI_BIG, num=40 if th else 3, depth=8)],
                 props=("Fate",), profiles=("dev", "plain"))]


# -------------------------------------------------------------------- Unsize
# cfg = [type]
@prop
def C17(th):
    return [Part("unsize", "Unsize", "unsize",
                 mc=[dict(consts=dict(MaxHandles=1, MaxObjs=1, Kinds=set(range(1, 13)), Objs=set(range(1, 12))), cfgs=[(t,) for t in range(1, 12)], cap=50000 if th else 20000),
                     dict(consts=dict(MaxHandles=3, MaxObjs=1, Kinds={9, 10, 11, 12}, Objs={1, 4, 7}), cfgs=[(3,), (5,), (7,)], cap=100000 if th else 12000, maxlen=7 if th else 6)],
                 sim=[dict(consts=dict(MaxHandles=24, MaxObjs=12, Kinds=set(range(1, 13)), Objs=set(range(1, 12))), cfgs=[(t,) for t in [*range(1, 12), 13, 14]], num=400 if th else 15, depth=24)],
                 props=("Once",), profiles=("dev", "plain"))]


# ------------------------------------------------------------------ FixedVec
# cfg = [type, ctor, n, off]
FV_SMALL = [(2, 0, 2, 0), (3, 1, 19, 3), (5, 0, 1, 0), (1, 0, 0, 0)]
FV_MORE = [(3, 0, 3, 0), (7, 1, 70, 5), (6, 0, 2, 0), (4, 1, 80, 1), (10, 1, 10, 2), (9, 0, 2, 0), (2, 1, 3, 1), (5, 1, 0, 1),
           (11, 1, 40, 7), (13, 0, 3, 0), (13, 1, 700, 5), (8, 1, 9, 1), (3, 1, 3, 6), (7, 1, 8, 4)]
FV_BIG = [(2, 0, 300, 0), (3, 0, 700, 0), (8, 1, 900, 1), (8, 0, 100000, 0), (2, 0, 65600, 0), (5, 0, 3, 0), (14, 0, 3, 0)]


@prop
def C11(th):
    return [Part("fixedvec", "FixedVec", "fixedvec",
                 mc=[dict(consts=dict(MaxId=4 if th else 3, Panics=False, Bulk=set()), cfgs=FV_SMALL)],
                 sim=[dict(consts=dict(MaxId=40, Panics=False, Bulk=set()), cfgs=FV_SMALL + FV_MORE, num=2500 if th else 250, depth=30),
                      dict(consts=dict(MaxId=12, Panics=False, Bulk=set()), cfgs=FV_SMALL + FV_MORE, num=5000 if th else 400, depth=12),
                      dict(consts=dict(MaxId=1200, Panics=False, Bulk={100, 255, 256, 280}), cfgs=FV_BIG, num=40 if th else 3, depth=14)],
                 props=("Conserve",), profiles=("dev", "plain"))]


@prop
def C12(th):
    return [Part("fixedvec_own", "FixedVec", "fixedvec",
                 mc=[dict(consts=dict(MaxId=4 if th else 3, Panics=True, Bulk=set()), cfgs=FV_SMALL)],
                 sim=[dict(consts=dict(MaxId=40, Panics=True, Bulk=set()), cfgs=FV_SMALL + FV_MORE, num=600 if th else 60, depth=30),
                      dict(consts=dict(MaxId=12, Panics=True, Bulk=set()), cfgs=FV_SMALL + FV_MORE, num=1000 if th else 100, depth=12),
                      dict(consts=dict(MaxId=1200, Panics=True, Bulk={100, 255, 256, 280}), cfgs=FV_BIG, num=40 if th else 4, depth=14)],
                 vmodule="FvOwn", vconsts={}, accept="Account",
                 props=("Conserve",), profiles=("dev", "plain"))]


# --------------------------------------------------------------------- Views
# cfg = [kind, element type]
@prop
def C18(th):
    return [Part("views", "Views", "views",
                 mc=[dict(consts=dict(MaxLen=2, Vals={0, 1, 2, 3}, MaxLong=0), cfgs=[(k, t) for k in (3, 5) for t in (1, 2, 3, 4)], cap=None if th else 20000),
                     dict(consts=dict(MaxLen=2, Vals={0, 1, 2, 3}, MaxLong=0), cfgs=[(k, t) for k in (1, 2, 4) for t in (1, 2, 3, 4)], cap=None if th else 15000)],
                 sim=[dict(consts=dict(MaxLen=3, Vals={0, 1, 2, 3}, MaxLong=0), cfgs=[(k, t) for k in (3, 5) for t in (1, 2, 3, 4)], num=400 if th else 20, depth=20),
                      dict(consts=dict(MaxLen=1, Vals={0, 1, 2, 3}, MaxLong=60), cfgs=[(k, t) for k in (3, 5) for t in (1, 2, 3, 4)], num=400 if th else 15, depth=40),
                      dict(consts=dict(MaxLen=1, Vals={0, 1, 2, 3}, MaxLong=1300), cfgs=[(k, t) for k in (3, 5) for t in (1, 2, 3, 4)], num=40 if th else 4, depth=16)],
                 profiles=("dev", "plain"))]


# ------------------------------------------------------------------- Layouts
@prop
def C19(th):
    return [Part("layouts", "Layouts", "layouts",
                 mc=[dict(consts=dict(MaxReg=3, Sizes={0, 1, 8, -1}, Aligns={1, 8}), cfgs=[(0,)], cap=None if th else 15000, maxlen=4),
                     dict(consts=dict(MaxReg=4 if th else 3, Sizes={0, 1, 2, 3, 5, 8, 1000, 1 << 20, -1, -2, -4096}, Aligns={1 << i for i in (0, 1, 2, 3, 6, 12, 20)}), cfgs=[(0,)], cap=200000 if th else 15000, maxlen=3)],
                 sim=[dict(consts=dict(MaxReg=12, Sizes={0, 1, 7, 64, -1, -64}, Aligns={1, 2, 64}), cfgs=[(0,)], num=300 if th else 20, depth=16)],
                 profiles=("dev", "plain"))]


# ------------------------------------------------------- Borrow and Threads
# cfg = [kind of the variable a program begins with, calls made first]
OWNERS = [(k,) for k in (1, 2, 3, 4, 5, 6, 7, 8, 9, 28, 35, 41)]
WAYS = [w for w in compiler.ways([k for k, in OWNERS]) if len(w) > 1]
SECOND, THIRD = [w for w in WAYS if len(w) == 2], [w for w in WAYS if len(w) > 2]
ALL = set(range(1, 43))


@prop
def C20(th):
    return [Part("borrow", "Borrow", "compile:Borrow",
                 # every method is called on every kind of object, with what can follow
                 mc=[dict(consts=dict(MaxObj=3, Roots=ALL), cfgs=OWNERS, maxlen=5),
                     dict(consts=dict(MaxObj=3, Roots=ALL), cfgs=SECOND, maxlen=5),
                     dict(consts=dict(MaxObj=4, Roots=ALL), cfgs=THIRD, maxlen=5),
                     dict(consts=dict(MaxObj=4, Roots=ALL), cfgs=SECOND, maxlen=5, cap=None if th else 12000),
                     dict(consts=dict(MaxObj=5, Roots=ALL), cfgs=THIRD, maxlen=5, cap=None if th else 6000),
                     dict(consts=dict(MaxObj=4, Roots=ALL), cfgs=OWNERS, maxlen=5, cap=None if th else 12000)],
                 sim=[dict(consts=dict(MaxObj=8, Roots=ALL), cfgs=OWNERS, num=1000 if th else 100, depth=12, early=True),
                      dict(consts=dict(MaxObj=14, Roots=ALL), cfgs=OWNERS, num=1000 if th else 50, depth=30, early=True)],
                 vconsts=dict(MaxObj=20, Roots=ALL), accept="Accept")]


# cfg = [kind of handle, class of contents]
@prop
def C21(th):
    return [Part("threads", "Threads", "compile:Threads", mc=[dict(consts={}, cfgs=[(k, c) for k in range(1, 21) for c in range(1, 5)])],
                 accept="Accept")]


TECHNIQUE, NOTES, NOT_APPLICABLE = {}, {}, {}
TECHNIQUE["C20"] = TECHNIQUE["C21"] = "TLA+ specification of what programs of safe calls may do, model checked with TLC; the programs it generates are compiled against the crates, and the verdicts of the compiler are validated against the specification with TLC"
NOTES["C20"] = NOTES["C21"] = "exhaustive over the specification within the stated constants; the signatures of the crates are checked on all generated programs, not proved"
