-------------------------------- MODULE Leak --------------------------------
(* Values moved into a bump allocator: plain leaked references, leak boxes,    *)
(* pinned boxes and raw pointers.  Who has to drop what, and when.             *)
(* it[i] is what became of the i-th attempt to put a value into the allocator: *)
(*   none  the attempt failed, or the value is gone                            *)
(*   ref   leaked, nobody drops it      box, pin  owned by a leak box          *)
(*   arr   leak box of a slice          raw, rarr a box turned into a pointer  *)
EXTENDS Common
CONSTANTS MaxItems, MaxId

VARIABLES it, nx, N, ty, level, obs
vars == <<it, nx, N, ty, level, obs>>
View == <<it, nx, N, ty, level>>

Room == << 8, 32, 96, 240, 2000 >>
\* cfg = <<kind of allocator, storage, first type, second type>>
InitC(c) == /\ it = <<>> /\ nx = 1 /\ N = Room[c[2]] /\ ty = <<c[3], c[4]>>
            /\ level = 0 /\ obs = Obs0

Item(k, ids, t) == [k |-> k, ids |-> ids, t |-> t]
Gone == Item("none", <<>>, 1)
Held(i) == i.k # "none"
Boxy(i) == i.k \in {"box", "pin", "arr"}
Contents(s) == FoldCat([i \in 1..Len(s) |-> s[i].ids])
Id(t, i) == IF TyZst(ty[t]) THEN 0 ELSE i
Ids(t, n) == [i \in 1..n |-> Id(t, nx + i - 1)]

\* the result of every call: contents in order, and 1: all places unchanged, aligned and in bounds
Res(r, s, d, n, m, created) ==
  /\ it' = s /\ nx' = nx + created /\ obs' = O7(r, <<1>>, d, Contents(s), n, m, 1)
  /\ UNCHANGED <<N, ty>>

Puts == {"leak", "leakat", "lbox", "lboxat", "wbox", "gbox", "gleak", "arr", "dyn"}
At(l, a) == l + PadTo(l, a)
Cnt(o) == IF o.a = "arr" THEN 3 ELSE 1
Size(o) == TySize[ty[o.y]] * Cnt(o)
Fits(o) == Size(o) = 0 \/ At(level, TyAlign[ty[o.y]]) + Size(o) <= N
NextLevel(o) == IF Size(o) = 0 THEN level ELSE At(level, TyAlign[ty[o.y]]) + Size(o)
Stale(o) == o.a \in {"leakat", "lboxat"} /\ o.z = 1 /\ level # 0
\* r: whether it fits
Put(o, ok) ==
  LET n == Cnt(o)  ids == Ids(o.y, n) IN
  IF ok THEN Res("ok", Append(it, Item(CASE o.a \in {"leak", "leakat", "gleak"} -> "ref"
                                         [] o.a = "arr" -> "arr" [] OTHER -> "box", ids, o.y)),
                 <<>>, ids, <<>>, n)
  \* leak and leak_at hand the value back, a leak box cannot
  ELSE IF o.a \in {"leak", "leakat"} THEN Res("fail", Append(it, Gone), <<>>, ids, ids, n)
  ELSE IF o.a \in {"lbox", "lboxat"} THEN Res("fail", Append(it, Gone), ids, ids, <<>>, n)
  ELSE Res("fail", Append(it, Gone), <<>>, <<>>, <<>>, 0)
Put1(i, x) == [it EXCEPT ![i] = x]
Skipped == Res("skip", it, <<>>, <<>>, <<>>, 0)

\* operations on item i
Take1(i) == IF it[i].k = "box" THEN Res("ok", Put1(i, Gone), <<>>, <<>>, it[i].ids, 0) ELSE Skipped
Drop1(i) == IF Boxy(it[i]) THEN Res("ok", Put1(i, Gone), it[i].ids, <<>>, <<>>, 0) ELSE Skipped
Forget(i) == IF Boxy(it[i]) THEN Res("ok", Put1(i, Gone), <<>>, <<>>, <<>>, 0) ELSE Skipped
Set(i) == IF it[i].k \in {"ref", "box"}
          THEN Res("ok", Put1(i, [it[i] EXCEPT !.ids = Ids(it[i].t, 1)]), it[i].ids, Ids(it[i].t, 1), <<>>, 1)
          ELSE Skipped
Raw(i) == IF it[i].k = "box" THEN Res("ok", Put1(i, [it[i] EXCEPT !.k = "raw"]), <<>>, <<>>, <<>>, 0)
          ELSE IF it[i].k = "arr" THEN Res("ok", Put1(i, [it[i] EXCEPT !.k = "rarr"]), <<>>, <<>>, <<>>, 0)
          ELSE Skipped
Unraw(i) == IF it[i].k = "raw" THEN Res("ok", Put1(i, [it[i] EXCEPT !.k = "box"]), <<>>, <<>>, <<>>, 0)
            ELSE IF it[i].k = "rarr" THEN Res("ok", Put1(i, [it[i] EXCEPT !.k = "arr"]), <<>>, <<>>, <<>>, 0)
            ELSE Skipped
ToRef(i) == IF it[i].k = "box" THEN Res("ok", Put1(i, [it[i] EXCEPT !.k = "ref"]), <<>>, <<>>, <<>>, 0) ELSE Skipped
Own1(i) == IF it[i].k = "ref" THEN Res("ok", Put1(i, [it[i] EXCEPT !.k = "box"]), <<>>, <<>>, <<>>, 0) ELSE Skipped
Pin1(i) == IF it[i].k = "box" THEN Res("ok", Put1(i, [it[i] EXCEPT !.k = "pin"]), <<>>, <<>>, <<>>, 0) ELSE Skipped
Swap(i, j) == IF i # j /\ it[i].k \in {"ref", "box"} /\ it[j].k \in {"ref", "box"} /\ it[i].t = it[j].t
              THEN Res("ok", [it EXCEPT ![i].ids = it[j].ids, ![j].ids = it[i].ids], <<>>, <<>>, <<>>, 0)
              ELSE Skipped
\* the references end with a reset, boxes have to be gone
Reset == IF \E i \in 1..Len(it) : Boxy(it[i]) THEN Skipped
         ELSE Res("ok", [i \in 1..Len(it) |-> Gone], <<>>, <<>>, <<>>, 0)
End == LET b == SelectSeq(it, Boxy) IN
       Res("ok", [i \in 1..Len(it) |-> IF Boxy(it[i]) THEN Gone ELSE it[i]], Contents(b), <<>>, <<>>, 0)

Do(o, ok) ==
  CASE o.a \in Puts -> Put(o, ok)
    [] o.a = "take" -> Take1(o.x) [] o.a = "drop" -> Drop1(o.x) [] o.a = "forget" -> Forget(o.x)
    [] o.a = "set" -> Set(o.x) [] o.a = "raw" -> Raw(o.x) [] o.a = "unraw" -> Unraw(o.x)
    [] o.a = "toleak" -> ToRef(o.x) [] o.a = "own" -> Own1(o.x) [] o.a = "pin" -> Pin1(o.x)
    [] o.a = "swap" -> Swap(o.x, o.y) [] o.a = "reset" -> Reset [] o.a = "end" -> End

Apply(o) == LET ok == Fits(o) /\ ~Stale(o) IN
  /\ Do(o, IF o.a \in Puts THEN ok ELSE TRUE)
  /\ level' = IF o.a \in Puts THEN (IF ok THEN NextLevel(o) ELSE level) ELSE IF o.a = "reset" THEN 0 ELSE level

Live == {i \in 1..Len(it) : Held(it[i])}
Sets == IF nx <= MaxId THEN {"set"} ELSE {}
Ops == (IF Len(it) < MaxItems /\ nx <= MaxId
        THEN {Op(a, 0, t, 0) : a \in Puts, t \in {1, 2}} \cup {Op(a, 0, t, 1) : a \in {"leakat", "lboxat"}, t \in {1, 2}}
        ELSE {})
       \cup UNION {{Op(a, i, 0, 0) : a \in
             CASE it[i].k = "box" -> {"take", "drop", "forget", "raw", "toleak", "pin"} \cup Sets
               [] it[i].k = "ref" -> {"own"} \cup Sets
               [] it[i].k = "pin" -> {"drop", "forget"}
               [] it[i].k = "arr" -> {"drop", "forget", "raw"}
               [] it[i].k \in {"raw", "rarr"} -> {"unraw"}} : i \in Live}
       \cup {Op("swap", i, j, 0) : i \in {i \in Live : it[i].k = "box"},
                j \in {i \in Live : it[i].k \in {"box", "ref"}}}
       \cup {Op("reset", 0, 0, 0)}

\* judging: whether a request fits is the business of other properties
Accept(o, g) ==
  /\ Do(o, o.a \in Puts /\ g.r = "ok")
  /\ level' = level
  /\ obs'.r = g.r /\ obs'.d = g.d /\ obs'.c = g.c /\ obs'.n = g.n /\ obs'.m = g.m /\ obs'.v = g.v
Inv == \A i, j \in 1..Len(it) : \A a \in 1..Len(it[i].ids), b \in 1..Len(it[j].ids) :
         it[i].ids[a] # 0 /\ it[i].ids[a] = it[j].ids[b] => i = j /\ a = b
=============================================================================
