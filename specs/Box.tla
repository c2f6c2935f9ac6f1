-------------------------------- MODULE Box ---------------------------------
(* without_alloc::Box: a value in borrowed memory, as a box, a box of an       *)
(* unsized view, a raw handle or a leaked reference.                           *)
EXTENDS Common
CONSTANTS MaxHandles, MaxId, Sizes, Offs

VARIABLES hnd,   \* handles: kind, size and offset of the region, type, contents, unsized
          nx, ty, obs
vars == <<hnd, nx, ty, obs>>
View == <<hnd, nx, ty>>

\* cfg = <<first type, second type>>
InitC(c) == /\ hnd = <<>> /\ nx = 1 /\ ty = c /\ obs = Obs0

H(k, sz, off, t, ids, u) == [k |-> k, sz |-> sz, off |-> off, t |-> t, ids |-> ids, u |-> u]
NoH == H("gone", 0, 0, 1, <<>>, FALSE)
Is(i, K) == i \in 1..Len(hnd) /\ hnd[i].k \in K
Seen(s) == FoldCat([i \in 1..Len(s) |-> s[i].ids])
\* 1: every handle describes its place: same address, same length, same type, guard bytes intact
Res(r, d, n, m) == obs' = O7(r, <<1>>, d, Seen(hnd'), n, m, 1)
News(t, n) == [i \in 1..n |-> IF TyZst(ty[t]) THEN 0 ELSE nx + i - 1]
Same == UNCHANGED <<nx, ty>>

Mem(sz, off) == hnd' = Append(hnd, H("mem", sz, off, 1, <<>>, FALSE)) /\ Same /\ Res("ok", <<>>, <<>>, <<>>)
Fits(h, t, n) == h.off % TyAlign[ty[t]] = 0 /\ h.sz >= n * TySize[ty[t]]
\* a: new, init, intobox: how the value gets in
Make(i, t, n, a) ==
  LET h == hnd[i]  vs == News(t, n) IN
  IF Fits(h, t, n)
  THEN /\ hnd' = [hnd EXCEPT ![i] = H(IF a = "init" THEN "leak" ELSE "box", h.sz, h.off, t, vs, FALSE)]
       /\ nx' = nx + n /\ ty' = ty /\ Res("ok", <<>>, vs, <<>>)
  ELSE UNCHANGED <<hnd, nx, ty>> /\ Res("err", <<>>, <<>>, <<>>)
Unsize(i) == hnd' = [hnd EXCEPT ![i].u = TRUE] /\ Same /\ Res("ok", <<>>, <<>>, <<>>)
Drop(i, p) ==
  LET h == hnd[i]  d == IF h.k = "box" THEN h.ids ELSE <<>> IN
  /\ hnd' = [hnd EXCEPT ![i] = NoH] /\ Same
  /\ Res(IF p \in 1..Len(d) THEN "panic" ELSE "ok", d, <<>>, <<>>)
\* value and memory come back
TakeOut(i) ==
  LET h == hnd[i] IN
  /\ hnd' = [hnd EXCEPT ![i] = H("mem", h.sz, h.off, 1, <<>>, FALSE)] /\ Same
  /\ Res("ok", <<>>, <<>>, h.ids)
\* the value stays where it is, nobody drops it
RawMem(i) == hnd' = [hnd EXCEPT ![i] = H("mem", hnd[i].sz, hnd[i].off, 1, <<>>, FALSE)] /\ Same /\ Res("ok", <<>>, <<>>, <<>>)
Turn(i, k) == hnd' = [hnd EXCEPT ![i].k = k] /\ Same /\ Res("ok", <<>>, <<>>, <<>>)
Replace(i) ==
  LET h == hnd[i]  vs == News(h.t, Len(h.ids)) IN
  /\ hnd' = [hnd EXCEPT ![i].ids = vs] /\ nx' = nx + Len(vs) /\ ty' = ty
  /\ Res("ok", <<>>, vs, h.ids)
RECURSIVE AllDrops(_)
AllDrops(s) == IF s = <<>> THEN <<>> ELSE (IF Head(s).k = "box" THEN Head(s).ids ELSE <<>>) \o AllDrops(Tail(s))
End == hnd' = <<>> /\ Same /\ Res("ok", AllDrops(hnd), <<>>, <<>>)
Skip0 == UNCHANGED hnd /\ Same /\ Res("skip", <<>>, <<>>, <<>>)

Apply(o) ==
  CASE o.a = "mem" -> Mem(o.x, o.y)
    [] o.a \in {"new", "init", "intobox"} -> IF Is(o.x, {"mem"}) THEN Make(o.x, o.y, o.z, o.a) ELSE Skip0
    [] o.a = "unsize" -> IF Is(o.x, {"box"}) /\ ~hnd[o.x].u THEN Unsize(o.x) ELSE Skip0
    [] o.a = "drop" -> IF Is(o.x, {"box", "mem", "raw", "leak"}) THEN Drop(o.x, o.y) ELSE Skip0
    [] o.a = "take" -> IF Is(o.x, {"box"}) /\ ~hnd[o.x].u THEN TakeOut(o.x) ELSE Skip0
    [] o.a = "rawread" -> IF Is(o.x, {"raw"}) /\ ~hnd[o.x].u THEN TakeOut(o.x) ELSE Skip0
    [] o.a = "rawmem" -> IF Is(o.x, {"raw"}) THEN RawMem(o.x) ELSE Skip0
    [] o.a = "intoraw" -> IF Is(o.x, {"box"}) THEN Turn(o.x, "raw") ELSE Skip0
    [] o.a = "fromraw" -> IF Is(o.x, {"raw"}) THEN Turn(o.x, "box") ELSE Skip0
    [] o.a = "leak" -> IF Is(o.x, {"box"}) THEN Turn(o.x, "leak") ELSE Skip0
    [] o.a = "rawinto" -> IF Is(o.x, {"raw"}) THEN Turn(o.x, "leak") ELSE Skip0
    [] o.a = "replace" -> IF Is(o.x, {"box", "leak"}) THEN Replace(o.x) ELSE Skip0
    [] o.a = "end" -> End

Hs(K) == {i \in 1..Len(hnd) : hnd[i].k \in K}
Ops == (IF Len(hnd) < MaxHandles THEN {Op("mem", s, f, 0) : s \in Sizes, f \in Offs} ELSE {})
       \cup (IF nx <= MaxId THEN {Op(a, i, t, n) : a \in {"new", "init", "intobox"}, i \in Hs({"mem"}), t \in {1, 2}, n \in {1, 3}}
                                 \cup {Op("replace", i, 0, 0) : i \in Hs({"box", "leak"})} ELSE {})
       \cup {Op("unsize", i, 0, 0) : i \in {j \in Hs({"box"}) : ~hnd[j].u}}
       \cup {Op("drop", i, p, 0) : i \in Hs({"box"}), p \in 0..2} \cup {Op("drop", i, 0, 0) : i \in Hs({"raw", "mem", "leak"})}
       \cup {Op(a, i, 0, 0) : a \in {"take", "rawread", "rawmem", "intoraw", "fromraw", "leak", "rawinto"}, i \in Hs({"box", "raw"})}
\* a value is in one place at most
Inv == LET s == SelectSeq(Seen(hnd), LAMBDA i : i # 0) IN Inj(s)
Match(e, g) == e = g
=============================================================================
