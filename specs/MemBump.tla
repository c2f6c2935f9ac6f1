------------------------------ MODULE MemBump ------------------------------
(* static_alloc::unsync::{Bump, MemBump}: the bump allocator that is not       *)
(* shared.  Placement, levels and failures are exact.                          *)
EXTENDS Common

Rq(k, s, a) == [k |-> k, s |-> s, a |-> a]
Req == << Rq("alloc", 1, 1),     \* 1  alloc
          Rq("alloc", 8, 8),     \* 2  alloc
          Rq("get", 32, 16),     \* 3  get
          Rq("get", 4, 4),       \* 4  get
          Rq("get", 0, 16),      \* 5  get, zero sized
          Rq("alloc", 24, 8),    \* 6  bump_box
          Rq("alloc", 0, 1),     \* 7  bump_box, zero sized
          Rq("at", 8, 8),        \* 8  alloc_at
          Rq("getat", 2, 2),     \* 9  get_at
          Rq("getat", 0, 1),     \* 10 get_at, zero sized
          Rq("getat", 64, 64),   \* 11 get_at
          Rq("alloc", 12, 4),    \* 12 bump_array of 3 times 4 bytes
          Rq("alloc", 0, 8),     \* 13 bump_array of nothing
          Rq("alloc", 0, 16),    \* 14 bump_array of 5 zero sized values
          Rq("alloc", Inf, 8),   \* 15 bump_array with a size that overflows
          Rq("level", 0, 1),     \* 16
          Rq("reset", 0, 1),     \* 17
          Rq("mem", 0, 1),       \* 18 into_mem, from_mem_unchecked
          Rq("remem", 0, 1),     \* 19 into_mem, from_mem
          Rq("alloc", 3, 32),    \* 20 alloc, more aligned than large
          Rq("alloc", Inf, 1),   \* 21 alloc, about the largest layout there is
          Rq("alloc", 9, 1),     \* 22 bump_array of 3 times 3 bytes
          Rq("alloc", 0, 1),     \* 23 bump_array of usize::MAX zero sized values
          Rq("get", 1, 1),       \* 24 get
          Rq("alloc", 1, 8192),  \* 25 alloc, alignments larger than a page
          Rq("alloc", 16, 65536), \* 26 alloc
          Rq("at", 3, 32768),    \* 27 alloc_at
          Rq("alloc", 30, 1),    \* 28 alloc, these also for a large block, in other units
          Rq("at", 7, 1),        \* 29 alloc_at
          Rq("alloc", 20, 1),    \* 30 bump_array of bytes
          Rq("alloc", 1, 1),     \* 31 alloc
          Rq("alloc", Inf, 8),   \* 32 bump_array with a size of 8 modulo 2^64
          Rq("alloc", Inf, 1),   \* 33 bump_array with a size of 5 modulo 2^64
          Rq("alloc", Inf, 2),   \* 34 bump_array with a size that exceeds isize::MAX
          \* only where there is a lot of room, or an address for which they fit
          Rq("alloc", 16, 128),  \* 35 alloc
          Rq("alloc", 1, 256),   \* 36 alloc
          Rq("alloc", 3, 512),   \* 37 alloc
          Rq("at", 8, 1024),     \* 38 alloc_at
          Rq("alloc", 1, 2048),  \* 39 alloc
          Rq("alloc", 7, 16384), \* 40 alloc
          Rq("alloc", 257, 1),   \* 41 bump_array of bytes
          Rq("alloc", 5002, 2),  \* 42 bump_array of 2501 times 2 bytes
          Rq("alloc", 5600, 8),  \* 43 bump_array of 700 times 8 bytes
          Rq("get", 1000, 8),    \* 44 get
          Rq("alloc", 4098, 2),  \* 45 bump_box
          Rq("alloc", 33333, 4), \* 46 alloc
          Rq("at", 5001, 16),    \* 47 alloc_at
          Rq("getat", 770, 2),   \* 48 get_at
          Rq("alloc", 65537, 1), \* 49 bump_array of bytes
          \* nothing, but with an alignment
          Rq("alloc", 0, 64),    \* 50 bump_array of nothing
          Rq("alloc", 0, 16),    \* 51 bump_array of no zero sized values
          Rq("alloc", 0, 16),    \* 52 bump_box, zero sized
          Rq("getat", 0, 16),    \* 53 get_at, zero sized
          \* large, and much aligned
          Rq("get", 4096, 2048),    \* 54 get
          Rq("getat", 4096, 2048),  \* 55 get_at
          Rq("alloc", 4096, 2048),  \* 56 bump_box
          Rq("alloc", 12288, 2048), \* 57 bump_array of 3
          Rq("getat", 5000, 1),     \* 58 get_at
          Rq("at", 10000, 4096) >>  \* 59 alloc_at
\* the length of the slice bump_array returns
ArrLen == [i \in {12, 13, 14, 22, 23, 30, 41, 42, 43, 49, 50, 51, 57} |-> CASE i = 57 -> 3 [] i >= 50 -> 0 [] i = 41 -> 257 [] i = 42 -> 2501 [] i = 43 -> 700 [] i = 49 -> 65537 [] i = 12 -> 3 [] i = 13 -> 0 [] i = 14 -> 5 [] i = 22 -> 3 [] i = 30 -> 20 [] i = 23 -> -1]
StSize  == << 1, 16, 40, 64, 0, 41, 48, 100, 24, 4, 100000 >>
StAlign == << 1,  1,  8, 64, 1,  1, 16,   1,  8, 4,      1 >>

CONSTANTS HS, HA        \* how many observed levels and allocations are remembered

VARIABLES ok,           \* whether there is an allocator at all
          cap, base,    \* size of its data, and address of that modulo 65536
          isMem,        \* made from raw memory (and may be turned into it again)
          level, seen,  \* bytes consumed; levels observed since the reset, latest first
          al,           \* typed allocations: the level before, request, offset (-1: no size)
          blocks, obs
vars == <<ok, cap, base, isMem, level, seen, al, blocks, obs>>
View == <<ok, cap, base, isMem, level, seen, al>>

Down8(n) == n - (n % 8)
\* cfg = <<kind, a, b, c>>:
\*   <<1, storage type, address of the allocator modulo 65536, 1 if zeroed>>
\*   <<2, length, offset in a 65536 aligned region, 0>>   from_mem
\*   <<3, capacity, address of the heap block modulo 4096, 0>>     MemBump::new
\*   <<4, capacity, 0, 0>>               MemBump::new, everything counted in units of 64 MiB
Pad1(t) == Max(StAlign[t], 8) - 8
InitC(c) ==
  /\ seen = <<>> /\ al = <<>> /\ blocks = {} /\ obs = Obs0
  /\ isMem = (c[1] = 2)
  /\ CASE c[1] = 1 -> /\ ok = TRUE /\ base = c[3] + 8
                      /\ cap = Pad1(c[2]) + StSize[c[2]]
                      /\ level = IF c[4] = 1 THEN Pad1(c[2]) ELSE 0
       [] c[1] = 2 -> LET p == PadTo(c[3], 8) IN
                      /\ ok = (c[2] >= p + 8) /\ base = c[3] + p + 8
                      /\ cap = IF c[2] >= p + 8 THEN Down8(c[2] - p - 8) ELSE 0
                      /\ level = 0
       [] c[1] \in {3, 4} -> ok = TRUE /\ base = (IF c[1] = 4 THEN -1 ELSE c[3]) /\ cap = c[2] /\ level = 0

At(l, q) == l + PadTo(base + l, q.a)
FitsAt(l, q) == q.s = 0 \/ (q.s <= cap /\ At(l, q) + q.s <= cap)
\* v = <<offset, reported level, level now, capacity, length of the slice>>
Sees(l) == IF seen # <<>> /\ seen[1] = l THEN seen ELSE Take(<<l>> \o seen, HS)
Say(r, off, lv, ln) == obs' = O7(r, <<off, lv, level', cap', ln>>, <<>>, <<>>, <<>>, <<>>, 1)
Keep == UNCHANGED <<ok, cap, base, isMem>>

Success(q, i) ==
  LET off == IF q.s = 0 THEN -1 ELSE At(level, q)
      nl == IF q.s = 0 THEN level ELSE off + q.s IN
  /\ level' = nl /\ seen' = Sees(nl)
  /\ blocks' = IF q.s = 0 THEN blocks ELSE blocks \cup {<<off, q.s>>}
  /\ al' = IF q.k \in {"get", "getat"} THEN Take(<<<<level, i, off>>>> \o al, HA) ELSE al
  /\ Keep
  /\ Say("ok", off, IF q.k \in {"get", "getat"} THEN nl ELSE -1, IF i \in DOMAIN ArrLen THEN ArrLen[i] ELSE 0)
Fail(r, lv) == UNCHANGED <<level, al, blocks>> /\ Keep /\ seen' = Sees(level) /\ Say(r, -1, lv, 0)

Request(i, sel) ==
  LET q == Req[i]  e == IF seen = <<>> THEN level ELSE seen[Min(sel + 1, Len(seen))] IN
  CASE q.k \in {"alloc", "get"} -> IF FitsAt(level, q) THEN Success(q, i) ELSE Fail("exh", -1)
    [] q.k \in {"at", "getat"} ->
         IF e = level THEN (IF FitsAt(level, q) THEN Success(q, i) ELSE Fail("exh", -1))
         ELSE Fail("mis", level) \/ (~FitsAt(level, q) /\ Fail("exh", -1))
    [] q.k = "level" -> UNCHANGED <<level, al, blocks>> /\ Keep /\ seen' = Sees(level) /\ Say("ok", -1, level, 0)
    [] q.k = "reset" -> /\ level' = 0 /\ seen' = <<0>> /\ al' = <<>> /\ blocks' = {} /\ Keep
                        /\ Say("ok", -1, -1, 0)
    \* off: start of the memory relative to where the allocator started; ln: whether its length is right
    [] q.k = "mem" -> /\ UNCHANGED <<level, al, blocks>> /\ Keep /\ seen' = Sees(level)
                      /\ Say("ok", 0, -1, cap + 8)
    [] q.k = "remem" -> /\ level' = 0 /\ seen' = <<0>> /\ al' = <<>> /\ blocks' = {} /\ Keep
                        /\ Say("ok", 0, -1, cap + 8)
\* first event of every history: the state of the new allocator
Start == /\ UNCHANGED <<ok, cap, base, isMem, level, al, blocks>>
         /\ seen' = <<level>>
         /\ IF ok THEN Say("ok", 0, -1, 0) ELSE Say("err", 0, -1, 0)
\* re-derive an earlier typed allocation
Redo(k) == /\ UNCHANGED <<ok, cap, base, isMem, level, al, blocks, seen>>
           /\ Say("ok", al[k][3], -1, 0)
End == UNCHANGED <<ok, cap, base, isMem, level, al, blocks, seen>> /\ obs' = Obs0

Apply(o) == CASE o.a = "start" -> Start
              [] o.a = "r" -> Request(o.y, o.z)
              [] o.a = "redo" -> Redo(o.x)
              [] o.a = "end" -> End
Usable(i) == /\ base >= 0 \/ i \in {5, 7, 10, 16, 17, 21} \cup 28..34
             /\ i \in 35..49 \cup 54..59 => cap > 10000 \/ (i <= 40 /\ base > 99)
Ops == IF seen = <<>> THEN {Op("start", 0, 0, 0)}
       ELSE IF ~ok THEN {}
       ELSE {Op("r", 0, q, z) : q \in {i \in 1..Len(Req) : Usable(i) /\ Req[i].k \in {"at", "getat"}}, z \in 0..(Len(seen) - 1)}
            \cup {Op("r", 0, q, 0) : q \in {i \in 1..Len(Req) : Usable(i) /\ Req[i].k \notin {"at", "getat", "mem", "remem"}}}
            \cup (IF isMem THEN {Op("r", 0, 18, 0), Op("r", 0, 19, 0)} ELSE {})
            \cup {Op("redo", k, 0, 0) : k \in 1..Len(al)}

Disjoint == \A b, c \in blocks : b = c \/ b[1] + b[2] <= c[1] \/ c[1] + c[2] <= b[1]
Inside == \A b \in blocks : b[1] >= 0 /\ b[1] + b[2] <= cap /\ b[1] + b[2] <= level
RederiveOk == \A i \in 1..Len(al) : al[i][3] = -1 \/ At(al[i][1], Req[al[i][2]]) = al[i][3]
Inv == ok => level \in 0..cap /\ Disjoint /\ Inside /\ RederiveOk
Match(e, g) == \/ /\ e.r = g.r /\ g.r = "err"
               \/ e.r = g.r /\ e.v = g.v
               \/ g.r = "ok" /\ g.v = <<>>      \* end
\* Exact capacities of a fresh allocator are judged with some freedom.
Accept(o, g) ==
  IF o.a = "start" /\ g.r = "ok" THEN
    \* data of at least what was asked for, no more than there is
    /\ ok
    /\ cap' = g.v[4] /\ level' = g.v[3]
    /\ IF isMem THEN cap' \in cap..(cap + 7) /\ level' = 0
       ELSE cap' - level' >= cap - level /\ cap' <= cap /\ level' <= level
    /\ seen' = <<level'>> /\ obs' = g
    /\ UNCHANGED <<ok, base, isMem, al, blocks>>
  ELSE Apply(o) /\ Match(obs', g)
=============================================================================
