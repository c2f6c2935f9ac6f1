-------------------------------- MODULE Own ---------------------------------
(* Ownership ledger: what any history of an owning container has to satisfy   *)
(* whatever the container does exactly.  Values are created and handed to the *)
(* library (n), handed back (m), destroyed (d) or visible (c).  A value is    *)
(* destroyed at most once and never visible afterwards; if the library claims *)
(* to show all it owns (k = 1) nothing may have vanished.                     *)
EXTENDS Common

CONSTANTS LeakOps,       \* operations that may lose values
          LeakPanicOps   \* operations that may lose values if a destructor panics

VARIABLES alive, lost,   \* bags, as functions id -> count
          slack,         \* a loss was permitted while not everything was visible
          obs
vars == <<alive, lost, slack, obs>>

InitC(c) == alive = <<>> /\ lost = <<>> /\ slack = FALSE /\ obs = Obs0

Cnt(b, i) == IF i \in DOMAIN b THEN b[i] ELSE 0
BagOf(s) == [i \in Range1(s) |-> Occ(s, i)]
Plus(b, s) == [i \in DOMAIN b \cup Range1(s) |-> Cnt(b, i) + Occ(s, i)]
\* remove s from b, forgetting empty entries
Minus(b, s) == LET f == [i \in DOMAIN b |-> b[i] - Occ(s, i)]
               IN [i \in {j \in DOMAIN f : f[j] > 0} |-> f[i]]
Within(s, b) == \A i \in Range1(s) : Occ(s, i) <= Cnt(b, i)
Merge(a, b) == [i \in DOMAIN a \cup DOMAIN b |-> Cnt(a, i) + Cnt(b, i)]

\* one observed call; g is what was observed
Account(o, g) ==
  LET a0 == Plus(alive, g.n)
      gone == g.d \o g.m
      \* values that may have leaked may also still turn up, but once only
      isLost(i) == Cnt(a0, i) = 0 /\ Cnt(lost, i) > 0
      fromLost == SelectSeq(gone, isLost)
      fromLive == SelectSeq(gone, LAMBDA i : ~isLost(i))
      a1 == Minus(a0, fromLive)
      mayLose == \/ slack
                 \/ o.a \in LeakOps
                 \/ o.a \in LeakPanicOps /\ g.r = "panic"
      settle == mayLose /\ g.k = 1
  IN /\ Within(fromLive, a0)                     \* nothing destroyed or returned twice
     /\ Within(fromLost, lost)
     /\ Within(g.c, a1)                          \* nothing visible after its end
     /\ g.k = 1 => (mayLose \/ a1 = BagOf(g.c))  \* nothing vanished
     /\ alive' = IF settle THEN BagOf(g.c) ELSE a1
     /\ lost' = Minus(IF settle THEN Merge(lost, Minus(a1, g.c)) ELSE lost, fromLost)
     /\ slack' = (mayLose /\ g.k # 1)
     /\ obs' = g
Inv == \A i \in DOMAIN alive : alive[i] > 0
=============================================================================
