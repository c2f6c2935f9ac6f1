-------------------------------- MODULE FvOwn --------------------------------
(* Ownership of the elements of a FixedVec: the ledger, and in addition what a *)
(* drain may not lose even if it is forgotten or a destructor panics: the      *)
(* elements in front of the drained range.                                     *)
EXTENDS Common
VARIABLES alive, lost, slack, obs, last, keep
L == INSTANCE Own WITH LeakOps <- {"dforget"}, LeakPanicOps <- {"dend", "dcons"}

InitC(c) == L!InitC(c) /\ last = <<>> /\ keep = <<>>
Account(o, g) ==
  /\ L!Account(o, g)
  /\ last' = g.c
  /\ keep' = IF o.a = "drain" /\ g.r = "ok" THEN Take(last, o.x) ELSE keep
  /\ o.a \in {"dend", "dforget", "dcons"} => Take(g.c, Len(keep)) = keep
Inv == L!Inv
=============================================================================
