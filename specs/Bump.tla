-------------------------------- MODULE Bump --------------------------------
(* static_alloc::Bump, the shared bump allocator: what a single call does if   *)
(* it takes effect at one instant, and two ways to judge histories of calls    *)
(* made by several threads.                                                    *)
(*                                                                             *)
(* Judge `Lin`  : the history is linearizable to the atomic specification      *)
(*                (levels, failures and placement are exact).                  *)
(* Judge `Safe` : only what handed out memory has to satisfy: inside the       *)
(*                storage, aligned, disjoint from all others since a reset.    *)
EXTENDS Common

Rq(k, s, a) == [k |-> k, s |-> s, a |-> a, o |-> 0]
Re(o, s, a) == [k |-> "re", s |-> s, a |-> a, o |-> o]
\* the requests the drivers make; size 0 is a zero sized type
Req == << Rq("alloc", 1, 1),    \* 1  get_layout
          Rq("alloc", 8, 8),    \* 2  Bump::alloc
          Rq("alloc", 32, 16),  \* 3  get
          Rq("alloc", 24, 8),   \* 4  leak
          Rq("alloc", 4, 4),    \* 5  leak_box
          Rq("alloc", 2, 2),    \* 6  GlobalAlloc::alloc
          Rq("alloc", 3, 1),    \* 7  LocalAlloc::alloc
          Rq("alloc", 0, 1),    \* 8  get, zero sized
          Rq("at", 8, 8),       \* 9  get_layout_at
          Rq("at", 1, 1),       \* 10 leak_at
          Rq("at", 8, 8),       \* 11 leak_box_at
          Rq("at", 4, 4),       \* 12 alloc_at
          Rq("at", 2, 2),       \* 13 get_at
          Rq("at", 0, 16),      \* 14 get_at, zero sized
          Rq("level", 0, 1),    \* 15 level
          Rq("reset", 0, 1),    \* 16 reset
          Rq("alloc", 5, 32),   \* 17 get_layout, more aligned than large
          Rq("alloc", 200, 1),  \* 18 get_layout, never fits
          Rq("alloc", 0, 1),    \* 19 leak, zero sized
          Rq("at", 0, 1),       \* 20 leak_at, zero sized
          Rq("alloc", Inf, 1),  \* 21 get_layout, about the largest layout there is
          Rq("alloc", 1, 4096), \* 22 get_layout, hugely aligned
          Rq("alloc", 64, 64),  \* 23 get
          Rq("alloc", 1, 8192), \* 24 get_layout, alignments larger than a page
          Rq("alloc", 16, 65536), \* 25 get_layout
          Rq("at", 3, 32768),   \* 26 get_layout_at
          Rq("alloc", 30, 1),   \* 27 get_layout, these also for a large storage, in other units
          Rq("at", 7, 1),       \* 28 get_layout_at
          Rq("alloc", 1, 1),    \* 29 Bump::alloc
          Rq("alloc", 20, 1),   \* 30 GlobalAlloc::alloc
          Rq("at", 2, 1),       \* 31 alloc_at
          Re(2, 10, 2),      \* 32 GlobalAlloc::realloc of the block of a preceding 6
          Re(3, 9, 1),       \* 33 LocalAlloc::realloc of the block of a preceding 7
          Re(2, 1, 2),       \* 34 GlobalAlloc::realloc of the block of a preceding 6
          Rq("alloc", 6, 2),    \* 35 GlobalAlloc::alloc_zeroed
          Rq("alloc", 5, 1),    \* 36 LocalAlloc::alloc_zeroed
          \* only where there is a lot of room, or an address for which they fit
          Rq("alloc", 16, 128),  \* 37 get_layout
          Rq("alloc", 1, 256),   \* 38 GlobalAlloc::alloc
          Rq("alloc", 3, 512),   \* 39 LocalAlloc::alloc
          Rq("alloc", 8, 1024),  \* 40 Bump::alloc
          Rq("alloc", 1, 2048),  \* 41 get_layout
          Rq("alloc", 7, 16384), \* 42 get_layout
          Rq("alloc", 257, 1),   \* 43 Bump::alloc
          Rq("alloc", 1000, 8),  \* 44 get
          Rq("alloc", 4098, 2),  \* 45 leak
          Rq("alloc", 33333, 4), \* 46 GlobalAlloc::alloc
          Rq("alloc", 65537, 1), \* 47 LocalAlloc::alloc
          Rq("at", 5001, 16),    \* 48 get_layout_at
          Rq("at", 300, 256),    \* 49 alloc_at
          Rq("at", 770, 2),      \* 50 leak_at
          Rq("alloc", 4096, 2048), \* 51 get
          Rq("alloc", 4096, 2048), \* 52 leak
          Rq("alloc", 4096, 2048), \* 53 leak_box
          Rq("at", 4096, 2048),    \* 54 get_at
          Rq("at", 4096, 2048),    \* 55 leak_at
          Rq("at", 4096, 2048),    \* 56 leak_box_at
          Rq("at", 10000, 4096),   \* 57 alloc_at
          Rq("alloc", 9000, 8192), \* 58 GlobalAlloc::alloc
          Rq("alloc", 20000, 4096), \* 59 LocalAlloc::alloc
          Rq("alloc", 5000, 1024), \* 60 GlobalAlloc::alloc_zeroed
          Rq("alloc", 5000, 1024), \* 61 LocalAlloc::alloc_zeroed
          Rq("alloc", 5000, 1),    \* 62 leak_box
          Rq("at", 5000, 1) >>     \* 63 leak_box_at
\* storage types: size and alignment
\* (the last one is large: everything is counted in units of 4096 bytes, its address is -1)
StSize  == << 1, 16, 40, 64, 0, 41, 48, 100, 24, 100, 100000 >>
StAlign == << 1,  1,  8, 64, 1,  1, 16,   1,  8,   1,      1 >>

VARIABLES N, base,      \* size of the storage, its address modulo 65536
          level,        \* bytes consumed
          seen,         \* levels observed since the last reset, latest first
          pend,         \* thread -> its pending call and, once it took effect, its outcome
          blocks,       \* handed out memory since the last reset
          obs
vars == <<N, base, level, seen, pend, blocks, obs>>
View == <<N, base, level, seen>>

\* cfg = <<storage type, address modulo 65536, ...>>
InitC(c) == /\ N = StSize[c[1]] /\ base = c[2]
            /\ level = 0 /\ seen = <<0>>
            /\ pend = <<>> /\ blocks = {} /\ obs = Obs0

At(l, q) == l + PadTo(base + l, q.a)
FitsAt(l, q) == q.s = 0 \/ (q.s <= N /\ At(l, q) + q.s <= N)

\* outcome: result, offset, reported level, level afterwards
Out(r, off, lv, nl) == [r |-> r, off |-> off, lv |-> lv, nl |-> nl]
\* all permitted outcomes of q at level l; e is the level asked for, or the offset of the old block
\* (a block may be enlarged or shrunk where it is, if no other one is behind it or inside of it)
Outcomes(l, q, e) ==
  LET ok == Out("ok", IF q.s = 0 THEN -1 ELSE At(l, q), IF q.s = 0 THEN l ELSE At(l, q) + q.s,
                IF q.s = 0 THEN l ELSE At(l, q) + q.s)
      exh == Out("exh", -1, -1, l)
      mis == Out("mis", -1, l, l) IN
  CASE q.k = "alloc" -> IF FitsAt(l, q) THEN {ok} ELSE {exh}
    [] q.k = "at" -> IF e = l THEN (IF FitsAt(l, q) THEN {ok} ELSE {exh})
                     ELSE {mis} \cup (IF FitsAt(l, q) THEN {} ELSE {exh})
    [] q.k = "re" -> (IF FitsAt(l, q) THEN {ok} ELSE {exh})
                     \cup (IF q.s <= q.o THEN {Out("ok", e, -1, l)} ELSE {})
                     \cup (IF e + q.o = l /\ e + q.s <= N THEN {Out("ok", e, -1, Max(l, e + q.s))} ELSE {})
    [] q.k = "level" -> {Out("ok", -1, l, l)}
    [] q.k = "reset" -> {Out("ok", -1, -1, 0)}
\* entry points that report less: v = <<offset, level>>, -1 where nothing is reported
Fits2(w, g) == /\ g.r = w.r
               /\ \/ g.v[1] = -1
                  \/ g.v[1] = w.off
               /\ \/ g.v[2] = -1 /\ w.r # "mis"
                  \/ g.v[2] = w.lv

\* ------------------------------------------- exploration of the sequential view
Push(s, e) == Take(<<e>> \o s, 2)
Seq1(o) == LET q == Req[o.y]  e == seen[Min(o.z + 1, Len(seen))] IN
  \E w \in Outcomes(level, q, e) :
    /\ level' = w.nl
    /\ seen' = IF q.k = "reset" THEN <<0>> ELSE IF w.lv = -1 THEN seen ELSE Push(seen, w.lv)
    /\ blocks' = IF q.k = "reset" THEN {}
                 ELSE IF w.off = -1 THEN blocks ELSE blocks \cup {<<w.off, q.s>>}
    /\ obs' = O7(w.r, <<w.off, w.lv>>, <<>>, <<>>, <<>>, <<>>, 1)
    /\ UNCHANGED <<N, base, pend>>
Apply(o) == Seq1(o)
Usable(i) == /\ Req[i].k # "re"
             /\ base >= 0 \/ i \in {15, 16, 21} \cup 27..31
             /\ i >= 37 => N > 100 \/ (i <= 42 /\ base > 99)
Ops == {Op("r", 0, q, z) : q \in {i \in 1..Len(Req) : Usable(i) /\ Req[i].k = "at"}, z \in 0..(Len(seen) - 1)}
       \cup {Op("r", 0, q, 0) : q \in {i \in 1..Len(Req) : Usable(i) /\ Req[i].k # "at"}}

Disjoint == \A b, c \in blocks : b = c \/ b[1] + b[2] <= c[1] \/ c[1] + c[2] <= b[1]
Inside == \A b \in blocks : b[1] >= 0 /\ b[1] + b[2] <= N /\ b[1] + b[2] <= level
Inv == level \in 0..N /\ Disjoint /\ Inside
Monotone == [][level' >= level \/ (level' = 0 /\ blocks' = {})]_vars

\* ------------------------------------------------------- judging histories
\* events: inv (x thread, y request, z level asked for), ret (x thread)
Idle == [q |-> 0, e |-> 0, fin |-> FALSE, w |-> Out("", 0, 0, 0)]
Get(t) == IF t \in DOMAIN pend THEN pend[t] ELSE Idle
Set(p, t, x) == [i \in DOMAIN p \cup {t} |-> IF i = t THEN x ELSE p[i]]
Open(p) == {t \in DOMAIN p : p[t].q # 0 /\ ~p[t].fin}
\* ways in which pending calls take effect one after another, t the last: <<level, pend>>
RECURSIVE Ways(_, _, _)
Ways(t, l, p) ==
  LET last == {<<w.nl, Set(p, t, [p[t] EXCEPT !.fin = TRUE, !.w = w])>> : w \in Outcomes(l, Req[p[t].q], p[t].e)}
      more == UNION {UNION {Ways(t, w.nl, Set(p, u, [p[u] EXCEPT !.fin = TRUE, !.w = w]))
                              : w \in Outcomes(l, Req[p[u].q], p[u].e)}
                      : u \in Open(p) \ {t}}
  IN last \cup more

Lin(o, g) ==
  /\ UNCHANGED <<N, base, seen, blocks>>
  /\ obs' = g
  /\ CASE o.a = "inv" ->
            /\ Get(o.x).q = 0
            /\ pend' = Set(pend, o.x, [Idle EXCEPT !.q = o.y, !.e = o.z])
            /\ level' = level
       [] o.a = "ret" ->
            \E s \in (IF Get(o.x).fin THEN {<<level, pend>>} ELSE Ways(o.x, level, pend)) :
              /\ Fits2(s[2][o.x].w, g)
              /\ level' = s[1]
              /\ pend' = Set(s[2], o.x, Idle)
       [] o.a = "end" -> UNCHANGED <<level, pend>>

Safe(o, g) ==
  /\ UNCHANGED <<N, base, level, seen>>
  /\ obs' = g
  /\ CASE o.a = "inv" -> /\ pend' = Set(pend, o.x, [Idle EXCEPT !.q = o.y, !.e = o.z])
                         /\ blocks' = blocks
       [] o.a = "ret" -> LET q == Req[Get(o.x).q]  off == g.v[1] IN
            /\ pend' = Set(pend, o.x, Idle)
            /\ g.r # "panic"
            /\ IF q.k = "reset" THEN blocks' = {}
               ELSE IF g.r # "ok" \/ off = -1 THEN blocks' = blocks
               ELSE LET others == IF q.k = "re" THEN blocks \ {<<Get(o.x).e, q.o>>} ELSE blocks IN
                    /\ off >= 0 /\ off + q.s <= N
                    /\ (base + off) % q.a = 0
                    /\ \A b \in others : off + q.s <= b[1] \/ b[1] + b[2] <= off
                    /\ blocks' = others \cup {<<off, q.s>>}
       [] o.a = "end" -> UNCHANGED <<pend, blocks>>
=============================================================================
