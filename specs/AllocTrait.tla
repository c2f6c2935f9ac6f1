----------------------------- MODULE AllocTrait -----------------------------
(* The allocator interfaces: GlobalAlloc and LocalAlloc of Bump, and the       *)
(* default implementations of LocalAlloc on top of an allocator that only has  *)
(* alloc and dealloc, logs the calls and fails on demand.                      *)
(* kind 1: Bump as GlobalAlloc       2: Bump as LocalAlloc                     *)
(*      3: defaults, static dispatch 4: defaults through a trait object        *)
EXTENDS Common
CONSTANTS MaxBlocks, Sizes, Aligns

VARIABLES kind, N, level, bl, stamp, obs
vars == <<kind, N, level, bl, stamp, obs>>
View == <<kind, N, level, bl, stamp>>

InitC(c) == kind = c[1] /\ N = c[2] /\ level = 0 /\ bl = <<>> /\ stamp = 1 /\ obs = Obs0

Mock == kind > 2
Block(off, s, a, bytes) == [off |-> off, s |-> s, a |-> a, b |-> bytes, live |-> TRUE]
Dead == [off |-> 0, s |-> 0, a |-> 1, b |-> <<>>, live |-> FALSE]
Stamp(s, n) == [i \in 1..n |-> (s * 16 + i) % 251]
AllBytes(bs) == FoldCat([i \in 1..Len(bs) |-> bs[i].b])
Live(i) == i \in 1..Len(bl) /\ bl[i].live
\* no piece of two live blocks is the same, except for block i
Apart(off, s, i) == \A j \in 1..Len(bl) : j # i /\ bl[j].live => off + s <= bl[j].off \/ bl[j].off + bl[j].s <= off

\* the alignment asked for, and whether the underlying allocator is told to fail
AlOf(z) == z % 10000
Told(z) == z >= 10000
Huge == {Inf, Inf - 1}     \* sizes for which there is no layout, or hardly
Sz(x) == x

\* ------------------------------------------------------------ exploration
At(l, a) == l + PadTo(l, a)
Fit(s, a, z) == ~Told(z) /\ At(level, a) + s <= N
Apply(o) ==
  /\ UNCHANGED <<kind, N>>
  /\ CASE o.a \in {"alloc", "zeroed"} ->
            LET ok == Fit(o.x, o.y, o.z) IN
            /\ bl' = Append(bl, IF ok THEN Block(At(level, o.y), o.x, o.y, <<>>) ELSE Dead)
            /\ level' = IF ok THEN At(level, o.y) + o.x ELSE level
            /\ stamp' = stamp
            /\ obs' = O7(IF ok THEN "ok" ELSE "null", <<>>, <<>>, <<>>, <<>>, <<>>, 1)
       [] o.a = "realloc" ->
            LET b == bl[o.x]  al == AlOf(o.z)
                inplace == ~Mock /\ o.y <= b.s /\ b.off % al = 0
                ok == inplace \/ Fit(o.y, al, o.z)
                off == IF inplace THEN b.off ELSE At(level, al) IN
            /\ bl' = IF ok THEN [bl EXCEPT ![o.x] = Block(off, o.y, al, <<>>)] ELSE bl
            /\ level' = IF ok /\ ~inplace THEN off + o.y ELSE level
            /\ stamp' = stamp
            /\ obs' = O7(IF ok THEN "ok" ELSE "null", <<>>, <<>>, <<>>, <<>>, <<>>, 1)
       [] o.a = "dealloc" -> bl' = [bl EXCEPT ![o.x] = Dead] /\ UNCHANGED <<level, stamp>> /\ obs' = Obs0
       [] o.a = "fill" -> stamp' = stamp + 1 /\ UNCHANGED <<level, bl>> /\ obs' = Obs0
       [] o.a = "reset" -> bl' = [i \in 1..Len(bl) |-> Dead] /\ level' = 0 /\ stamp' = stamp /\ obs' = Obs0
Lives == {i \in 1..Len(bl) : bl[i].live}
Fails == IF Mock THEN {0, 10000} ELSE {0}
ReAligns(i) == IF kind = 1 THEN {bl[i].a} ELSE Aligns
Ops == (IF Len(bl) < MaxBlocks
        THEN {Op(a, s, al, f) : a \in {"alloc", "zeroed"}, s \in Sizes, al \in Aligns, f \in Fails} ELSE {})
       \cup UNION {{Op("realloc", i, s, al + f) : s \in Sizes \cup (IF Mock THEN {} ELSE Huge), al \in ReAligns(i), f \in Fails} : i \in Lives}
       \cup {Op("dealloc", i, 0, 0) : i \in Lives}
       \cup (IF stamp <= MaxBlocks + 2 THEN {Op("fill", i, 0, 0) : i \in Lives} ELSE {})
       \cup (IF Mock THEN {} ELSE {Op("reset", 0, 0, 0)})
Inv == \A i, j \in Lives : i # j => bl[i].off + bl[i].s <= bl[j].off \/ bl[j].off + bl[j].s <= bl[i].off

\* ---------------------------------------------------------------- judging
\* v = <<offset, offset of the storage, its size, level before the call>>, all offsets modulo 4096
\* c = bytes of all live blocks; n = <<size, align, offset>> of the calls of alloc that succeeded below,
\* m = <<offset, size, align>> of each dealloc below; k = 0 if a guard byte was overwritten
FitsNow(s, a, g) == LET base == g.v[2]  l == g.v[4] IN l + PadTo(base + l, a) + s <= g.v[3]
BytesOf(c, bs, i) == LET skip == SumSeq([j \in 1..(i - 1) |-> bs[j].s]) IN SubSeq(c, skip + 1, skip + bs[i].s)
Accept(o, g) ==
  /\ UNCHANGED <<kind, N, level>>
  /\ obs' = g /\ g.k = 1
  /\ CASE o.a \in {"alloc", "zeroed"} ->
            /\ stamp' = stamp
            /\ IF g.r = "ok"
               THEN LET off == g.v[1]  b0 == Append(bl, Block(off, o.x, o.y, <<>>))
                        by == BytesOf(g.c, b0, Len(b0)) IN
                    /\ off % o.y = 0
                    /\ IF Mock THEN Len(g.n) = 3 /\ g.n[1] >= o.x /\ g.n[3] = off
                       ELSE off >= g.v[2] /\ off + o.x <= g.v[2] + g.v[3]
                    /\ Apart(off, o.x, 0)
                    /\ Len(by) = o.x
                    /\ o.a = "zeroed" => \A i \in 1..o.x : by[i] = 0
                    /\ bl' = Append(bl, Block(off, o.x, o.y, by))
                    /\ g.c = AllBytes(bl')
                    /\ g.m = <<>>
               ELSE /\ g.r = "null"
                    /\ IF Mock THEN g.n = <<>> ELSE ~FitsNow(o.x, o.y, g)
                    /\ bl' = Append(bl, Dead) /\ g.c = AllBytes(bl) /\ g.m = <<>>
       [] o.a = "realloc" -> LET b == bl[o.x]  al == AlOf(o.z)  s == o.y IN
            /\ stamp' = stamp
            /\ IF g.r = "ok"
               THEN LET off == g.v[1]
                        by == BytesOf(g.c, [bl EXCEPT ![o.x] = Block(off, s, al, <<>>)], o.x) IN
                    /\ off % al = 0
                    /\ IF Mock THEN /\ Len(g.n) = 3 /\ g.n[1] >= s /\ g.n[3] = off
                                    \* moved: the old block is given back once, as it was obtained
                                    /\ g.m = <<b.off, b.s, b.a>>
                       ELSE off >= g.v[2] /\ off + s <= g.v[2] + g.v[3]
                    /\ Apart(off, s, o.x)
                    /\ Len(by) = s
                    /\ Take(by, Min(s, b.s)) = Take(b.b, Min(s, b.s))
                    /\ bl' = [bl EXCEPT ![o.x] = Block(off, s, al, by)]
                    /\ g.c = AllBytes(bl')
               ELSE /\ g.r = "null"
                    /\ IF Mock THEN g.n = <<>> /\ g.m = <<>>
                       ELSE ~FitsNow(s, al, g) /\ ~(s <= b.s /\ b.off % al = 0)
                    /\ bl' = bl /\ g.c = AllBytes(bl)
       [] o.a = "dealloc" -> /\ g.r = "ok" /\ bl' = [bl EXCEPT ![o.x] = Dead] /\ g.c = AllBytes(bl') /\ stamp' = stamp
       [] o.a = "fill" -> /\ g.r = "ok" /\ bl' = [bl EXCEPT ![o.x].b = Stamp(stamp, bl[o.x].s)] /\ stamp' = stamp + 1
                          /\ g.c = AllBytes(bl')
       [] o.a = "reset" -> /\ bl' = [i \in 1..Len(bl) |-> Dead] /\ stamp' = stamp /\ g.r = "ok"
       [] o.a = "end" -> g.c = AllBytes(bl) /\ UNCHANGED <<bl, stamp>>
       [] o.a = "skip" -> UNCHANGED <<bl, stamp>>
=============================================================================
