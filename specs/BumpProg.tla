------------------------------ MODULE BumpProg ------------------------------
(* Enumerates the programs of several threads that the interleaving explorer   *)
(* executes: a sequential prefix (thread 0), then for every thread a sequence  *)
(* of requests.  Threads are interchangeable, so their first requests ascend.  *)
EXTENDS Common
CONSTANTS NT, Pre, Len1, Requests, Prefixes
VARIABLES pr, obs
vars == <<pr, obs>>
InitC(c) == pr = <<>> /\ obs = Obs0
Code(s) == s
CurT == IF pr = <<>> THEN 0 ELSE pr[Len(pr)].x
Of(t) == SelectSeq(pr, LAMBDA o : o.x = t)
\* whether thread t may get request q: threads in order, each full before the next one starts
Ops == LET n0 == Len(Of(0)) IN
       {Op("r", 0, q, 0) : q \in {q \in Prefixes : n0 < Pre /\ CurT = 0}}
       \cup {o \in {Op("r", t, q, 0) : t \in 1..NT, q \in Requests} :
              /\ Len(Of(o.x)) < Len1
              /\ \A u \in 1..(o.x - 1) : Len(Of(u)) > 0
              /\ CurT <= o.x
              /\ (o.x > 1 /\ Of(o.x) = <<>>) => Of(o.x - 1)[1].y <= o.y}
Apply(o) == pr' = Append(pr, o) /\ obs' = Obs0
View == pr
Inv == TRUE
=============================================================================
