------------------------------- MODULE Fill -------------------------------
(* Fill: containers of limited capacity pull items from an iterator.          *)
(* kind 1 Option, 2 Vec, 3 VecDeque, 4 unit, 5 slice iterator (assigning),    *)
(*      6 slice iterator (swapping)                                           *)
(*      7 a container of the user that asks again when there is nothing       *)
(*      (the iterator it is given need not say so twice in the same way)      *)
(*      11, 12, 13, 14 Result of these, 21, 22 .. Result of Result of these   *)
EXTENDS Common
CONSTANTS MaxId, Sources, Errors, Drains

VARIABLES cont,   \* contents in order
          bad,    \* 0 or the level of the error, and the id of the error
          pos,    \* slice iterators: what was passed
          cap, kind, ty, nx, obs
vars == <<cont, bad, pos, cap, kind, ty, nx, obs>>
View == <<cont, bad, pos, cap, kind, ty, nx>>

\* cfg = <<kind, capacity, type, number of initial items, ..>>; the capacity of Vec and VecDeque of
\* types without size is unlimited
Base(k) == k % 10
Depth(k) == k \div 10
Zst(t) == TyZst(t)
CapOf(c) == CASE Base(c[1]) = 1 -> 1 [] Base(c[1]) = 4 -> Inf
              [] Base(c[1]) \in {2, 3} /\ Zst(c[3]) -> Inf [] OTHER -> c[2]
Start(c) == CASE Base(c[1]) = 1 -> Min(c[4], 1) [] Base(c[1]) = 4 -> 0 [] Base(c[1]) \in {5, 6} -> c[2] [] OTHER -> Min(c[4], c[2])
Id(i) == IF Zst(ty) \/ Base(kind) = 4 THEN 0 ELSE i
InitC(c) == LET k == Start(c) IN
  /\ cont = [i \in 1..k |-> IF Zst(c[3]) THEN 0 ELSE i] /\ bad = <<0, 0>> /\ pos = 0 /\ cap = CapOf(c) /\ kind = c[1] /\ ty = c[3]
  /\ nx = k + 1 /\ obs = Obs0
Rest == UNCHANGED <<cap, kind, ty>>

Slicy == Base(kind) \in {5, 6}
Room == IF bad[1] # 0 THEN 0 ELSE IF Slicy THEN Len(cont) - pos ELSE cap - Len(cont)
\* a source: -1 endless; n < 1000: n items and then nothing; 1000 + n: n items, one None, then more items;
\* 2000 + n: n items and then a panic
SrcLen(x) == IF x < 0 THEN Inf ELSE x % 1000
\* an error is the y-th item, at level y \div 1000
ErrPos(y) == IF Depth(kind) = 0 \/ y = 0 \/ (y \div 1000 > 1 /\ Depth(kind) = 1) THEN Inf ELSE y % 1000
ErrLvl(y) == IF Depth(kind) = 1 THEN 1 ELSE 1 + ((y \div 1000) % 2)

\* what is visible
See(c, b) == c \o (IF b[1] = 0 THEN <<>> ELSE <<b[2]>>)
Res(r, c, b, p, v, d, n, m, k) ==
  /\ cont' = c /\ bad' = b /\ pos' = p /\ nx' = nx + k /\ Rest
  /\ obs' = O7(r, v \o <<Enc(cap), b[1], Enc(p)>>, d, See(c, b), n, m, 1)

\* items are made when they are pulled, an error is item number e
Pull(o) ==
  LET room == Room  n == SrcLen(o.x)  e == ErrPos(o.y)
      k == Min(room, n)                      \* items if there was no error
      err == e <= k
      pulled == IF err THEN e ELSE k
      ended == ~err /\ k < room
      polls == pulled + (IF ended THEN 1 ELSE 0)
      \* what is left in the source
      boom == o.x >= 2000 /\ ended               \* what was pulled before is in its place
      after == IF o.x >= 1000 /\ ended THEN Inf ELSE n - pulled
      left == IF boom \/ o.a = "fill" \/ o.a = "count" THEN 0
              ELSE IF o.a = "checked" /\ ended THEN 0
              ELSE Min(o.z, after)
      ids(a, b) == [i \in 1..(b - a + 1) |-> IF a + i - 1 = e THEN nx + e - 1 ELSE Id(nx + a + i - 2)]
      got == ids(1, pulled)
      tail == ids(pulled + 1, pulled + left)
      made == pulled + left
      items == IF err THEN Front1(got) ELSE got
      c2 == IF Slicy THEN Take(cont, pos) \o items \o Skip(cont, pos + Len(items)) ELSE cont \o items
      r == IF boom THEN "panic" ELSE IF o.a # "checked" THEN "ok" ELSE IF ended THEN "none" ELSE "some"
      v == IF boom THEN <<>> ELSE <<pulled, IF Base(kind) = 7 THEN -1 ELSE polls, IF o.a = "count" THEN pulled ELSE -1>>
      old == SubSeq(cont, pos + 1, pos + Len(items))
      \* units are consumed, nothing is stored
  IN CASE Base(kind) = 6 -> LET all == Min(n, 600) IN   \* exchanged with the buffer of the caller
            Res(r, c2, bad, pos + Len(items), v, <<>>, [i \in 1..all |-> Id(nx + i - 1)],
                old \o [i \in 1..(all - pulled) |-> Id(nx + pulled + i - 1)], all)
       [] Base(kind) = 5 -> Res(r, c2, bad, pos + Len(items), v, old, got \o tail, tail, made)
       [] Base(kind) = 4 -> Res(r, <<>>, IF err THEN <<ErrLvl(o.y), nx + e - 1>> ELSE bad, pos, v, <<>>, got \o tail, tail, made)
       [] err -> Res(r, <<>>, <<ErrLvl(o.y), nx + e - 1>>, pos, v, cont \o items, got \o tail, tail, made)
       [] OTHER -> Res(r, c2, bad, pos, v, <<>>, got \o tail, tail, made)

\* one item is taken away again
Pop == IF cont = <<>> \/ Slicy \/ Base(kind) = 4 THEN Res("skip", cont, bad, pos, <<>>, <<>>, <<>>, <<>>, 0)
       ELSE IF Base(kind) = 3 THEN Res("ok", Tail(cont), bad, pos, <<>>, <<>>, <<>>, <<Head(cont)>>, 0)
       ELSE Res("ok", Front1(cont), bad, pos, <<>>, <<>>, <<>>, <<Last1(cont)>>, 0)
\* at the end everything is destroyed
End == Res("ok", <<>>, <<0, 0>>, 0, <<>>, cont \o (IF bad[1] = 0 THEN <<>> ELSE <<bad[2]>>), <<>>, <<>>, 0)

Apply(o) == CASE o.a \in {"fill", "count", "tail", "checked"} -> Pull(o)
              [] o.a = "pop" -> Pop
              [] o.a = "end" -> End

Ops == (IF nx <= MaxId THEN {Op(a, x, y, z) : a \in {"fill", "count", "tail", "checked"},
                                x \in {x \in Sources : (x >= 0 /\ x < 1000) \/ (Base(kind) # 6 /\ (cap < Inf \/ x >= 1000)
                                                                          /\ (Base(kind) = 7 => x \notin 1000..1999))},
                                y \in (IF Depth(kind) = 0 THEN {0} ELSE {y \in Errors : y < 1000 \/ Depth(kind) = 2}), z \in Drains} ELSE {})
       \cup (IF Slicy \/ Base(kind) = 4 \/ cont = <<>> THEN {} ELSE {Op("pop", 0, 0, 0)})

\* ------------------------------------------------------------- properties
Inv == /\ Len(cont) <= cap
       /\ \A i, j \in 1..Len(cont) : cont[i] # 0 /\ cont[i] = cont[j] => i = j
\* every item that was pulled is stored, or given back, or was dropped, exactly once
Fate == [][obs'.r # "skip" /\ Base(kind) # 4 => SameBag(See(cont, bad) \o obs'.n, See(cont', bad') \o obs'.d \o obs'.m)]_vars
Match(e, g) == /\ e.r = g.r /\ e.v = g.v /\ e.c = g.c /\ e.d = g.d /\ e.n = g.n /\ e.m = g.m
=============================================================================
