-------------------------------- MODULE Bytes -------------------------------
(* The bytes behind the bump allocators: what construction, allocation and     *)
(* reset leave in the storage, and that all of it is available again.          *)
(* kind 1: static_alloc::Bump<T>; 2: unsync::Bump<T>; 3: MemBump in raw memory *)
(* ctor 0: uninit, 1: zeroed, 2: new with a byte pattern                       *)
EXTENDS Common
CONSTANTS MaxAlloc, MaxStamp

VARIABLES kind, ctor, size, N, level, mem, al, stamp, fresh, obs
vars == <<kind, ctor, size, N, level, mem, al, stamp, fresh, obs>>
View == <<kind, ctor, size, N, level, mem, al, stamp, fresh>>

Pattern(i) == (i * 7 + 129) % 256        \* byte i, counted from 0
InitC(c) == /\ kind = c[1] /\ ctor = c[2] /\ size = c[3] /\ N = c[3] /\ level = 0
            /\ mem = [i \in 1..c[3] |-> IF c[2] = 2 THEN Pattern(i - 1) ELSE 0]
            /\ al = <<>> /\ stamp = 1 /\ fresh = TRUE /\ obs = Obs0

Stamp(s, i) == (s * 16 + i) % 251        \* i-th byte written with stamp s
Written(m, off, n, s) == [i \in 1..Len(m) |-> IF i - 1 >= off /\ i - 1 < off + n THEN Stamp(s, i - 1 - off) ELSE m[i]]

\* ---------------------------------------------------- exploration (kind 1)
Obse(r, off, m, lv) == O7(r, <<lv, off>>, <<>>, m, <<>>, <<>>, 1)
At(a) == level + PadTo(level, a)
Apply(o) ==
  /\ UNCHANGED <<kind, ctor, size, N>>
  /\ CASE o.a = "alloc" ->
            LET fits == At(o.y) + o.x <= N IN
            /\ level' = IF fits THEN At(o.y) + o.x ELSE level
            /\ al' = Append(al, IF fits THEN <<At(o.y), o.x>> ELSE <<-1, 0>>)
            /\ fresh' = (fresh /\ ~fits)
            /\ UNCHANGED <<mem, stamp>>
            /\ obs' = Obse(IF fits THEN "ok" ELSE "none", 0, mem, level')
       [] o.a = "rest" ->
            /\ level' = N
            /\ al' = Append(al, IF N > level THEN <<level, N - level>> ELSE <<-1, 0>>)
            /\ fresh' = FALSE
            /\ UNCHANGED <<mem, stamp>>
            /\ obs' = Obse("ok", 0, mem, level')
       [] o.a = "write" ->
            /\ mem' = IF al[o.x][1] = -1 THEN mem ELSE Written(mem, al[o.x][1], al[o.x][2], stamp)
            /\ stamp' = stamp + 1
            /\ UNCHANGED <<level, al, fresh>>
            /\ obs' = Obse("ok", 0, mem', level)
       [] o.a = "reset" -> /\ level' = 0 /\ al' = <<>> /\ fresh' = TRUE /\ UNCHANGED <<mem, stamp>>
                           /\ obs' = Obse("ok", -1, mem, 0)
Requests == {<<1, 1>>, <<8, 8>>, <<3, 2>>, <<5, 16>>}
Ops == (IF Len(al) < MaxAlloc THEN {Op("alloc", q[1], q[2], 0) : q \in Requests} \cup {Op("rest", 0, 0, 0)} ELSE {})
       \cup (IF stamp <= MaxStamp THEN {Op("write", i, 0, 0) : i \in 1..Len(al)} ELSE {})
       \cup {Op("reset", 0, 0, 0)}
Inv == Len(mem) = N /\ level \in 0..N
\* only writing through an allocation changes a byte, and only the bytes of that allocation
OnlyWrites == [][mem' # mem => \E i \in 1..Len(al) :
                   \A j \in 1..Len(mem) : mem'[j] # mem[j] => j - 1 >= al[i][1] /\ j - 1 < al[i][1] + al[i][2]]_vars

\* ---------------------------------------------------------------- judging
\* every event: v = <<level, offset, size>> of the allocation concerned, c = all bytes.
\* "start" is logged before the first operation, v = <<level, capacity>>.
Accept(o, g) ==
  /\ UNCHANGED <<kind, ctor, size>>
  /\ obs' = g
  /\ CASE o.a = "start" ->
            /\ g.r = "ok"
            /\ N' = g.v[2] /\ Len(g.c) = g.v[2]
            /\ level' = g.v[1]
            /\ mem' = g.c
            /\ CASE kind = 1 -> g.v = <<0, size>>
                 [] kind = 2 -> g.v[2] - g.v[1] >= size
                 [] kind = 3 -> g.v = <<0, size>>
            /\ ctor = 1 => \A i \in (g.v[1] + 1)..Len(g.c) : g.c[i] = 0
            /\ ctor = 2 => \A i \in 1..Len(g.c) : g.c[i] = Pattern(i - 1)
            /\ al' = <<>> /\ stamp' = 1 /\ fresh' = TRUE
       [] o.a = "alloc" ->
            /\ g.r \in {"ok", "none"}
            /\ g.c = mem /\ mem' = mem /\ stamp' = stamp
            /\ al' = Append(al, <<g.v[2], g.v[3]>>)
            /\ level' = g.v[1] /\ fresh' = (fresh /\ g.r = "none") /\ N' = N
       [] o.a = "rest" ->
            \* right after construction or a reset everything can be handed out
            /\ fresh /\ N > level => g.r = "ok" /\ g.v[2] = level /\ g.v[3] = N - level
            /\ g.c = mem /\ mem' = mem /\ stamp' = stamp
            /\ al' = Append(al, <<g.v[2], g.v[3]>>)
            /\ level' = g.v[1] /\ fresh' = FALSE /\ N' = N
       [] o.a = "write" ->
            /\ g.r \in {"ok", "skip"}
            /\ mem' = IF g.r = "ok" THEN Written(mem, al[o.x][1], al[o.x][2], stamp) ELSE mem
            /\ g.c = mem' /\ stamp' = stamp + 1 /\ g.v[1] = level
            /\ UNCHANGED <<level, al, fresh, N>>
       [] o.a = "reset" ->
            /\ g.r = "ok" /\ g.v[1] = 0
            /\ g.c = mem /\ mem' = mem /\ stamp' = stamp
            /\ al' = <<>> /\ level' = 0 /\ fresh' = TRUE /\ N' = N
       [] o.a = "end" -> g.c = mem /\ UNCHANGED <<N, level, mem, al, stamp, fresh>>
=============================================================================
