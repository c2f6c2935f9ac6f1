------------------------------- MODULE Uninit -------------------------------
(* without_alloc::Uninit and UninitView: handles to parts of one region of     *)
(* uninitialized memory, split, cast, borrowed and written.                    *)
EXTENDS Common
CONSTANTS MaxHandles, Types, Bytes, Counts, Aligns

VARIABLES h,      \* handles
          lost,   \* bytes that no handle describes any more
          off, len, nx, obs
vars == <<h, lost, off, len, nx, obs>>
View == <<h, lost, off, len>>

\* k: "t" one value of type t (0: untyped), "s" slice of type t, "v" initialized, "z" not in the region
\* s, l: first byte (relative to an address aligned to 64) and length, w: may write
\* b: the handle it is borrowed from or 0
Hd(k, t, s, l, w, b) == [k |-> k, t |-> t, s |-> s, l |-> l, w |-> w, b |-> b, id |-> 0]
Gone == Hd("gone", 0, 0, 0, FALSE, 0)
\* cfg = <<offset of the region, length>>
InitC(c) == /\ h = <<Hd("t", 0, c[1], c[2], TRUE, 0)>> /\ lost = 0 /\ off = c[1] /\ len = c[2] /\ nx = 1 /\ obs = Obs0

Sz(t) == IF t = 0 THEN 0 ELSE TySize[t]
Al(t) == IF t = 0 THEN 1 ELSE TyAlign[t]
Cap(x) == IF Sz(x.t) = 0 THEN Inf ELSE x.l \div Sz(x.t)
See(x) == <<x.s, x.l, IF x.k = "s" THEN Enc(Cap(x)) ELSE -2>>
RECURSIVE SeeAll(_)
SeeAll(s) == IF s = <<>> THEN <<>> ELSE (IF Head(s).k = "gone" THEN <<>> ELSE See(Head(s))) \o SeeAll(Tail(s))
Vals(s) == FoldCat([i \in 1..Len(s) |-> IF s[i].k = "v" THEN <<s[i].id>> ELSE <<>>])
Res(r, n) == obs' = O7(r, <<1>> \o SeeAll(h'), <<>>, Vals(h'), n, <<>>, 1)
Rest == UNCHANGED <<off, len>>

Children(i) == {j \in 1..Len(h) : h[j].k # "gone" /\ h[j].b = i}
Is(i, K) == i \in 1..Len(h) /\ h[i].k \in K
\* may be changed: nothing is borrowed from it
Ready(i, K) == Is(i, K) /\ Children(i) = {}
Readable(i, K) == Is(i, K) /\ \A j \in Children(i) : ~h[j].w
\* numbers below 0 are huge
Huge(n) == n < 0

Fail(r) == UNCHANGED <<h, lost, nx>> /\ Rest /\ Res(r, <<>>)
\* keep the first n bytes, the rest is described by another handle
Split(i, n, k, t) ==
  /\ h' = Append([h EXCEPT ![i].l = n], Hd(k, t, h[i].s + n, h[i].l - n, h[i].w, h[i].b))
  /\ UNCHANGED <<lost, nx>> /\ Rest /\ Res("ok", <<>>)
AtByte(i, n) == IF Huge(n) \/ n > h[i].l \/ n < Sz(h[i].t) THEN Fail("none") ELSE Split(i, n, "t", 0)
Layout(i, size, al, k, t) ==
  LET p == PadTo(h[i].s, al) IN
  IF Huge(size) \/ p + size > h[i].l THEN Fail("none") ELSE Split(i, p, k, t)
\* the handle itself is turned into another one
TurnM(i, x, m) ==
              /\ h' = [h EXCEPT ![i] = x]
              /\ lost' = lost + (IF h[i].b = 0 /\ h[i].w /\ h[i].k \notin {"z", "e"} THEN h[i].l - x.l ELSE 0)
              /\ UNCHANGED nx /\ Rest
              /\ obs' = O7("ok", <<1>> \o SeeAll(h'), <<>>, Vals(h'), <<>>, m, 1)
Turn(i, x) == TurnM(i, x, <<>>)
Cast(i, k, t, size) ==
  IF h[i].s % Al(t) = 0 /\ size <= h[i].l THEN Turn(i, [h[i] EXCEPT !.k = k, !.t = t]) ELSE Fail("err")
\* slices
SplitAt(i, n) ==
  IF Sz(h[i].t) = 0 THEN Split(i, 0, "s", h[i].t)
  ELSE IF Huge(n) \/ n * Sz(h[i].t) > h[i].l THEN Fail("none")
  ELSE Split(i, n * Sz(h[i].t), "s", h[i].t)
First(i) ==
  LET x == h[i]  s == Sz(x.t) IN
  IF s > x.l THEN Fail("none")
  ELSE /\ h' = Append([h EXCEPT ![i] = [x EXCEPT !.s = @ + s, !.l = @ - s]], Hd("t", x.t, x.s, s, x.w, x.b))
       /\ UNCHANGED <<lost, nx>> /\ Rest /\ Res("ok", <<>>)
LastEl(i) == LET x == h[i]  s == Sz(x.t) IN
             IF s = 0 THEN Split(i, 0, "t", x.t)
             ELSE IF Cap(x) = 0 THEN Fail("none") ELSE Split(i, (Cap(x) - 1) * s, "t", x.t)
Shrink(i) == IF Sz(h[i].t) = 0 THEN Split(i, 0, "t", 0) ELSE Split(i, Cap(h[i]) * Sz(h[i].t), "t", 0)
\* (dyn: through a handle to an unsized type, which describes the same part)
\* through MaybeUninit and back: what the type does not need is lost
Through(i) == LET x == h[i] IN
  IF x.k = "t" THEN Turn(i, [x EXCEPT !.l = Sz(x.t)])
  ELSE \* the standard slice has as many elements as the capacity says
       TurnM(i, [x EXCEPT !.l = IF Sz(x.t) = 0 THEN 0 ELSE Cap(x) * Sz(x.t)], <<Enc(Cap(x))>>)
Borrow(i, w) == /\ h' = Append(h, [h[i] EXCEPT !.b = i, !.w = w])
                /\ UNCHANGED <<lost, nx>> /\ Rest /\ Res("ok", <<>>)
\* given up for a view, nobody may write to the part any more
IntoView(i) == /\ h' = [h EXCEPT ![i].w = FALSE]
               /\ lost' = lost + (IF h[i].b = 0 /\ h[i].s >= 0 THEN h[i].l ELSE 0)
               /\ UNCHANGED nx /\ Rest /\ Res("ok", <<>>)
\* a copy of a view is borrowed from the same handle
CopyView(i) == h' = Append(h, h[i]) /\ UNCHANGED <<lost, nx>> /\ Rest /\ Res("ok", <<>>)
Fits(i, size, al) == Fail(IF h[i].s % al = 0 /\ ~Huge(size) /\ size <= h[i].l THEN "yes" ELSE "no")
\* a value is written, it occupies the first bytes
Init1(i) ==
  LET x == h[i]  v == IF TyZst(x.t) THEN 0 ELSE nx IN
  /\ h' = [h EXCEPT ![i] = [x EXCEPT !.k = "v", !.l = Sz(x.t), !.id = v]]
  /\ lost' = lost + (IF x.b = 0 /\ x.k \notin {"z", "e"} THEN x.l - Sz(x.t) ELSE 0)
  /\ nx' = nx + 1 /\ Rest /\ Res("ok", <<v>>)
Drop(i) == /\ h' = [h EXCEPT ![i] = Gone]
           /\ lost' = lost + (IF h[i].b = 0 /\ h[i].w /\ h[i].k \notin {"z", "e"} THEN h[i].l ELSE 0)
           /\ UNCHANGED nx /\ Rest /\ Res("ok", <<>>)
\* handles that describe nothing: for types without size, and empty slices
Invent(t, w) == IF Sz(t) = 0
                THEN /\ h' = Append(h, Hd("z", t, -1, 0, w, 0)) /\ UNCHANGED <<lost, nx>> /\ Rest /\ Res("ok", <<>>)
                ELSE Fail("panic")
Empty(t, w) == /\ h' = Append(h, Hd("e", t, -1, 0, w, 0)) /\ UNCHANGED <<lost, nx>> /\ Rest /\ Res("ok", <<>>)

Apply(o) ==
  LET i == o.x IN
  CASE o.a = "byte"   -> IF Ready(i, {"t"}) THEN AtByte(i, o.y) ELSE Fail("skip")
    [] o.a = "layout" -> IF Ready(i, {"t"}) /\ h[i].t = 0 THEN Layout(i, o.y, o.z, "t", 0) ELSE Fail("skip")
    [] o.a = "scast"  -> IF Ready(i, {"t"}) /\ h[i].t = 0 THEN Layout(i, Sz(o.y), Al(o.y), "t", o.y) ELSE Fail("skip")
    [] o.a = "sslice" -> IF Ready(i, {"t"}) /\ h[i].t = 0 THEN Layout(i, 0, Al(o.y), "s", o.y) ELSE Fail("skip")
    [] o.a = "cast"   -> IF Ready(i, {"t"}) THEN Cast(i, "t", o.y, Sz(o.y)) ELSE Fail("skip")
    [] o.a = "cslice" -> IF Ready(i, {"t"}) THEN Cast(i, "s", o.y, 0) ELSE Fail("skip")
    [] o.a = "tofit"  -> IF Ready(i, {"t"}) THEN AtByte(i, Sz(h[i].t)) ELSE Fail("skip")
    [] o.a = "at"     -> IF Ready(i, {"s"}) THEN SplitAt(i, o.y) ELSE Fail("skip")
    [] o.a = "first"  -> IF Ready(i, {"s"}) THEN First(i) ELSE Fail("skip")
    [] o.a = "last"   -> IF Ready(i, {"s"}) THEN LastEl(i) ELSE Fail("skip")
    [] o.a = "shrink" -> IF Ready(i, {"s"}) THEN Shrink(i) ELSE Fail("skip")
    [] o.a = "mem"    -> IF Ready(i, {"t", "s"}) /\ h[i].w THEN Turn(i, [h[i] EXCEPT !.k = "t", !.t = 0]) ELSE Fail("skip")
    [] o.a = "dyn"    -> IF Ready(i, {"t"}) /\ h[i].t # 0 THEN Turn(i, [h[i] EXCEPT !.t = 0]) ELSE Fail("skip")
    [] o.a = "mu"     -> IF Ready(i, {"t", "s"}) THEN Through(i) ELSE Fail("skip")
    [] o.a = "into"   -> IF Ready(i, {"t"}) /\ h[i].w THEN IntoView(i) ELSE Fail("skip")
    [] o.a = "borrow" -> IF Ready(i, {"t", "s"}) /\ h[i].w THEN Borrow(i, TRUE) ELSE Fail("skip")
    [] o.a = "view"   -> IF ~Readable(i, {"t", "s"}) THEN Fail("skip") ELSE IF h[i].w THEN Borrow(i, FALSE) ELSE CopyView(i)
    [] o.a = "fits"   -> IF Readable(i, {"t", "s"}) THEN Fits(i, o.y, o.z) ELSE Fail("skip")
    [] o.a = "init"   -> IF Ready(i, {"t", "z"}) /\ h[i].w /\ h[i].t # 0 THEN Init1(i) ELSE Fail("skip")
    [] o.a = "drop"   -> IF Ready(i, {"t", "s", "v", "z", "e"}) THEN Drop(i) ELSE Fail("skip")
    [] o.a = "invent" -> Invent(o.x, o.y = 0)
    [] o.a = "empty"  -> Empty(o.x, o.y = 0)
    [] o.a = "end"    -> Fail("ok")

Hs(K) == {i \in 1..Len(h) : Ready(i, K)}
Void == {i \in Hs({"t"}) : h[i].t = 0}
More == Len(h) < MaxHandles
Ops == (IF More THEN
          {Op("byte", i, n, 0) : i \in Hs({"t"}), n \in Bytes}
          \cup {Op("layout", i, n, a) : i \in Void, n \in Bytes, a \in Aligns}
          \cup {Op(a, i, t, 0) : a \in {"scast", "sslice"}, i \in Void, t \in Types \ {0}}
          \cup {Op("tofit", i, 0, 0) : i \in Hs({"t"})}
          \cup {Op("at", i, n, 0) : i \in Hs({"s"}), n \in Counts}
          \cup {Op(a, i, 0, 0) : a \in {"first", "last", "shrink"}, i \in Hs({"s"})}
          \cup {Op("borrow", i, 0, 0) : i \in {j \in Hs({"t", "s"}) : h[j].w}}
          \cup {Op("view", i, 0, 0) : i \in {j \in 1..Len(h) : Readable(j, {"t", "s"})}}
          \cup {Op("invent", t, w, 0) : t \in Types, w \in 0..1} \cup {Op("empty", t, w, z) : t \in Types \ {0}, w \in 0..1, z \in 0..1}
        ELSE {})
       \cup {Op("cast", i, t, 0) : i \in Hs({"t"}), t \in Types}
       \cup {Op("cslice", i, t, 0) : i \in Hs({"t"}), t \in Types \ {0}}
       \cup {Op("mem", i, 0, 0) : i \in {j \in Hs({"t", "s"}) : h[j].w}}
       \cup {Op("dyn", i, 0, 0) : i \in {j \in Hs({"t"}) : h[j].t # 0}}
       \cup {Op("mu", i, y, 0) : i \in Hs({"t", "s"}), y \in 0..1}
       \cup {Op("into", i, 0, 0) : i \in {j \in Hs({"t"}) : h[j].w}}
       \cup {Op("fits", i, n, a) : i \in {j \in 1..Len(h) : Readable(j, {"t", "s"})}, n \in Bytes, a \in Aligns}
       \cup {Op("init", i, y, 0) : i \in {j \in Hs({"t", "z"}) : h[j].w /\ h[j].t # 0}, y \in 0..4}
       \cup {Op("drop", i, 0, 0) : i \in {j \in Hs({"t", "s", "v", "z", "e"}) : Len(h) > 1}}

\* ------------------------------------------------------------- properties
Owned == {i \in 1..Len(h) : h[i].k \in {"t", "s", "v"} /\ h[i].s >= 0 /\ h[i].b = 0 /\ h[i].w}
RECURSIVE Total(_)
Total(S) == IF S = {} THEN 0 ELSE LET i == CHOOSE i \in S : TRUE IN h[i].l + Total(S \ {i})
Apart(x, y) == x.l = 0 \/ y.l = 0 \/ x.s + x.l <= y.s \/ y.s + y.l <= x.s
Inside(x, s, l) == s <= x.s /\ x.s + x.l <= s + l
Siblings(i, j) == h[i].b = h[j].b /\ h[i].w /\ h[j].w /\ h[i].k \in {"t", "s", "v"} /\ h[j].k \in {"t", "s", "v"}
Inv == /\ \A i, j \in 1..Len(h) : i # j /\ Siblings(i, j) => Apart(h[i], h[j])
       /\ \A i \in 1..Len(h) : h[i].k \in {"t", "s", "v"} /\ h[i].s >= 0 =>
             /\ Inside(h[i], off, len)
             /\ h[i].b # 0 => Inside(h[i], h[h[i].b].s, h[h[i].b].l)
             /\ h[i].s % Al(h[i].t) = 0
             /\ h[i].k # "s" => Sz(h[i].t) <= h[i].l
       /\ Total(Owned) + lost = len
Match(e, g) == e = g
=============================================================================
