------------------------------ MODULE LeakExt ------------------------------
(* LocalAllocLeakExt: containers and copies created through any LocalAlloc.   *)
(* The allocator is a bump allocator (kind 1) or an allocator of the driver   *)
(* (kind 2) that may refuse and that grants more than asked for (extra).      *)
EXTENDS Common
CONSTANTS MaxItems, MaxId, Types, Lays, Counts

VARIABLES it, level, nx, kind, N, base, extra, obs
vars == <<it, level, nx, kind, N, base, extra, obs>>
View == <<it, level, nx, kind, N, base, extra>>

\* cfg = <<kind, size of the memory, its address modulo 4096, extra bytes granted>>
InitC(c) == /\ it = <<>> /\ level = 0 /\ nx = 1 /\ kind = c[1] /\ N = c[2] /\ base = c[3] /\ extra = c[4] /\ obs = Obs0
Rest == UNCHANGED <<kind, N, base, extra>>

StrLen == <<0, 1, 2, 13, 40, 1, 3, 16, 6, 5, 6, 11, 350, 4900>>
Makes == {"lay", "t", "box", "fv", "rc", "slice", "str", "dst", "dstr"}
Huge(o) == (o.a = "fv" /\ o.y < 0 /\ ~TyZst(o.x)) \/ (o.a = "lay" /\ o.x < 0)
Round(n, a) == n + PadTo(n, a)
\* what is asked for; rs, ra: layout of an Rc, which is its own business
Al(o, ra) == CASE o.a = "lay" -> o.y [] o.a \in {"str", "dstr"} -> 1 [] o.a = "rc" -> ra
               [] o.a = "dst" /\ o.y = -3 -> Max(4, TyAlign[o.x]) [] OTHER -> TyAlign[o.x]
Size(o, rs) == CASE o.a = "lay" -> o.x [] o.a \in {"str", "dstr"} -> StrLen[o.x] [] o.a = "rc" -> rs
                 [] o.a \in {"fv", "slice"} -> IF TyZst(o.x) THEN 0 ELSE o.y * TySize[o.x]
                 [] o.a = "dst" /\ o.y >= 0 -> o.y * TySize[o.x]
                 [] o.a = "dst" /\ o.y = -3 -> LET a == TyAlign[o.x] IN Round(Round(4, a) + TySize[o.x], Max(4, a))
                 [] OTHER -> TySize[o.x]
Fits(o, rs, ra) == LET s == Size(o, rs) IN
  s = 0 \/ (o.z = 0 /\ level + PadTo(base + level, Al(o, ra)) + s + extra <= N)

\* values that come into existence
Cnt(o) == CASE o.a \in {"box", "rc"} -> 1 [] o.a = "slice" -> o.y [] o.a = "dst" -> (IF o.y < 0 THEN 1 ELSE o.y) [] o.a \in {"str", "dstr"} -> 1 [] OTHER -> 0
Zst(o) == o.a \in {"box", "rc", "slice", "dst"} /\ TyZst(o.x)
Ids(o) == [i \in 1..Cnt(o) |-> IF Zst(o) THEN 0 ELSE nx + i - 1]
Item(k, t, s, l, cap, ids) == [k |-> k, t |-> t, s |-> s, l |-> l, cap |-> cap, ids |-> ids]
Contents(x) == FoldCat([i \in 1..Len(x) |-> x[i].ids])
Res(r, x, d, n, m, k) == /\ it' = x /\ nx' = nx + k /\ Rest /\ obs' = O7(r, <<1>>, d, Contents(x), n, m, 1)

\* what exists after the creation; the items that are not copied or moved in belong to the caller
Made(o, s, l, cap) == Res("ok", Append(it, Item(o.a, IF o.a \in {"lay", "str", "dstr"} THEN 0 ELSE o.x, s, l, cap, Ids(o))), <<>>, Ids(o), <<>>, Cnt(o))
\* values that were passed are dropped, sources of copies stay
NotMade(o) == Res("none", it, IF o.a \in {"box", "rc"} THEN Ids(o) ELSE <<>>, Ids(o), <<>>, Cnt(o))
Skipped == Res("skip", it, <<>>, <<>>, <<>>, 0)

Gone == Item("gone", 0, 0, 0, 0, <<>>)
Id1(t) == IF t # 0 /\ TyZst(t) THEN 0 ELSE nx
Set(i, x) == [it EXCEPT ![i] = x]
Step(o) ==
  LET i == o.x  x == IF o.x \in 1..Len(it) THEN it[o.x] ELSE Gone  v == IF x.k = "gone" THEN 0 ELSE Id1(x.t) IN
  CASE o.a = "write" /\ x.k = "lay" -> Res("ok", Set(i, [x EXCEPT !.ids = <<v>>]), <<>>, <<v>>, <<>>, 1)
    [] o.a = "init" /\ x.k = "t" /\ x.ids = <<>> -> Res("ok", Set(i, [x EXCEPT !.ids = <<v>>]), <<>>, <<v>>, <<>>, 1)
    [] o.a = "push" /\ x.k = "fv" -> IF Len(x.ids) < x.cap \/ x.cap = -1
                                     THEN Res("ok", Set(i, [x EXCEPT !.ids = Append(@, v)]), <<>>, <<v>>, <<>>, 1)
                                     ELSE Res("full", it, <<>>, <<v>>, <<v>>, 1)
    [] o.a = "drop" /\ x.k \in {"box", "rc", "fv", "dst"} -> Res("ok", Set(i, Gone), x.ids, <<>>, <<>>, 0)
    [] o.a = "end" -> Res("ok", [j \in 1..Len(it) |-> IF it[j].k \in {"box", "rc", "fv", "dst"} THEN Gone ELSE it[j]],
                          FoldCat([j \in 1..Len(it) |-> IF it[j].k \in {"box", "rc", "fv", "dst"} THEN it[j].ids ELSE <<>>]), <<>>, <<>>, 0)
    [] OTHER -> Skipped

\* exploring: a plain placement
Apply(o) ==
  IF o.a \notin Makes THEN Step(o) /\ UNCHANGED level
  ELSE LET al == Max(8, TyAlign[IF o.x \in 1..13 THEN o.x ELSE 1])
           rs == Round(16 + TySize[IF o.x \in 1..13 THEN o.x ELSE 1], al)
           s == level + PadTo(base + level, Al(o, al)) IN
       IF Huge(o) \/ ~Fits(o, rs, al) THEN NotMade(o) /\ UNCHANGED level
       ELSE IF Size(o, rs) = 0 THEN Made(o, -1, 0, IF o.a = "fv" THEN (IF TyZst(o.x) THEN -1 ELSE 0) ELSE -2) /\ UNCHANGED level
       ELSE Made(o, s, Size(o, rs) + extra, IF o.a = "fv" THEN (Size(o, rs) + extra) \div TySize[o.x] ELSE -2) /\ level' = s + Size(o, rs) + extra

\* judging: v = <<all is in place, level, place, bytes, capacity, length, size of an Rc, its alignment>>
Accept(o, g) ==
  IF o.a \notin Makes
  THEN Step(o) /\ UNCHANGED level /\ obs'.r = g.r /\ obs'.d = g.d /\ obs'.c = g.c /\ obs'.n = g.n /\ obs'.m = g.m /\ g.v[1] = 1 /\ g.v[2] = level
  ELSE LET rs == g.v[7]  ra == g.v[8] IN
    /\ g.v[1] = 1
    /\ o.a = "rc" => rs >= TySize[o.x] + 1 /\ ra >= TyAlign[o.x]
    /\ g.r \in {"ok", "none"}
    /\ IF g.r = "ok"
       THEN LET s == g.v[3]  l == g.v[4]  cap == g.v[5]  len == g.v[6] IN
            /\ ~Huge(o)
            /\ level' = g.v[2] /\ level' >= level /\ level' <= N
            /\ l >= (IF o.a = "rc" THEN TySize[o.x] ELSE Size(o, rs))
            /\ o.a = "rc" => level' >= level + rs
            /\ l > 0 => s >= level /\ s + l <= level' /\ (base + s) % Al(o, ra) = 0
            /\ o.a = "fv" => (IF TyZst(o.x) THEN cap = -1 ELSE cap >= o.y /\ cap * TySize[o.x] <= l) /\ len = 0
            /\ o.a = "slice" => len = o.y
            /\ o.a = "dst" /\ o.y >= 0 => len = o.y
            /\ o.a \in {"str", "dstr"} => len = StrLen[o.x]
            /\ Size(o, rs) > 0 => o.z = 0
            /\ Made(o, s, l, cap)
       ELSE /\ Huge(o) \/ ~Fits(o, rs, ra)
            /\ level' = g.v[2] /\ level' = level
            /\ NotMade(o)
    /\ obs'.d = g.d /\ obs'.c = g.c /\ obs'.n = g.n /\ obs'.m = g.m

Zs == IF kind = 2 THEN {0, 1} ELSE {0}
Ops == (IF Len(it) < MaxItems /\ nx <= MaxId
        THEN {Op("lay", l[1], l[2], z) : l \in Lays, z \in Zs}
             \cup {Op(a, t, 0, z) : a \in {"t", "box", "rc"}, t \in Types, z \in Zs}
             \cup {Op("fv", t, n, z) : t \in Types, n \in Counts, z \in Zs}
             \cup {Op("slice", t, n, z) : t \in Types, n \in {n \in Counts : n >= 0 /\ n < 1000}, z \in Zs}
             \cup {Op("dst", t, n, z) : t \in Types, n \in {n \in Counts : n >= 0 /\ n < 4} \cup {-1, -3}, z \in Zs}
             \cup {Op(a, n, 0, z) : a \in {"str", "dstr"}, n \in 1..14, z \in Zs}
        ELSE {})
       \cup UNION {{Op(a, i, 0, 0) : a \in
             CASE it[i].k = "lay" -> {"write"} [] it[i].k = "t" /\ it[i].ids = <<>> -> {"init"}
               [] it[i].k = "fv" -> {"push", "drop"} [] it[i].k \in {"box", "rc", "dst"} -> {"drop"} [] OTHER -> {}} :
             i \in {i \in 1..Len(it) : nx <= MaxId \/ it[i].k \notin {"lay", "t", "fv"}}}

\* ------------------------------------------------------------- properties
Inv == /\ \A i, j \in 1..Len(it) : i < j /\ it[i].l > 0 /\ it[j].l > 0 => it[i].s + it[i].l <= it[j].s \/ it[j].s + it[j].l <= it[i].s
       /\ \A i \in 1..Len(it) : it[i].l > 0 => it[i].s >= 0 /\ it[i].s + it[i].l <= N
       /\ \A i, j \in 1..Len(it) : \A a \in 1..Len(it[i].ids), b \in 1..Len(it[j].ids) :
            it[i].ids[a] # 0 /\ it[i].ids[a] = it[j].ids[b] => i = j /\ a = b
=============================================================================
